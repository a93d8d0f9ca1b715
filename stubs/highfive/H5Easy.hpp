// Stand-in for HighFive (not installed here): records what is written instead of creating a file.
#pragma once
#include <cstddef>
#include <string>
#include <vector>
struct VpDataset
{
    std::string path;
    std::vector<std::size_t> dims, offset, count;
    std::vector<double> d;      // floating-point data
    std::vector<std::size_t> u; // integer data
    int writes = 0;
};
inline std::vector<VpDataset>& vp_h5()
{
    static std::vector<VpDataset> v;
    return v;
}
namespace HighFive
{
    struct FileAccessProps
    {
        template <class T>
        void add(const T&)
        {
        }
    };
    struct DataTransferProps
    {
        template <class T>
        void add(const T&)
        {
        }
    };
    template <class T>
    struct AtomicType
    {
    };
    struct DataSpace
    {
        std::vector<std::size_t> dims;
        explicit DataSpace(const std::vector<std::size_t>& d)
            : dims(d)
        {
        }
    };
    struct Selection
    {
        std::size_t id;
        template <class T>
        void write_raw(const T* p, const AtomicType<T>&, const DataTransferProps&)
        {
            auto& s       = vp_h5()[id];
            std::size_t n = 1;
            for (auto c : s.count) n *= c;
            s.writes++;
            for (std::size_t i = 0; i < n; ++i)
            {
                if constexpr (std::is_floating_point_v<T>) s.d.push_back(p[i]);
                else s.u.push_back(static_cast<std::size_t>(p[i]));
            }
        }
    };
    struct DataSet
    {
        std::size_t id;
        Selection select(const std::vector<std::size_t>& o, const std::vector<std::size_t>& c)
        {
            vp_h5()[id].offset = o;
            vp_h5()[id].count  = c;
            return {id};
        }
    };
    struct File
    {
        static constexpr int Overwrite = 1;
        File(const std::string&, int, const FileAccessProps&)
        {
        }
        template <class T>
        DataSet createDataSet(const std::string& path, const DataSpace& sp)
        {
            VpDataset s;
            s.path = path;
            s.dims = sp.dims;
            vp_h5().push_back(s);
            return {vp_h5().size() - 1};
        }
    };
}
