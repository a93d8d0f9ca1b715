// Stand-in for pugixml: a small in-memory tree; saving records nothing on disk.
#pragma once
#include <cstddef>
#include <memory>
#include <string>
#include <utility>
#include <vector>
namespace pugi
{
    struct vp_node
    {
        std::string name, text;
        std::vector<std::pair<std::string, std::string>> attrs;
        std::vector<std::unique_ptr<vp_node>> kids;
    };
    struct xml_attribute
    {
        vp_node* n = nullptr;
        std::size_t i = 0;
        xml_attribute& operator=(const char* s)
        {
            n->attrs[i].second = s;
            return *this;
        }
        xml_attribute& operator=(unsigned long v)
        {
            n->attrs[i].second = std::to_string(v);
            return *this;
        }
        unsigned as_uint() const
        {
            return n ? static_cast<unsigned>(std::stoul(n->attrs[i].second)) : 0;
        }
    };
    struct xml_text
    {
        vp_node* n;
        xml_text& operator=(const char* s)
        {
            n->text = s;
            return *this;
        }
    };
    struct xml_node
    {
        vp_node* n = nullptr;
        xml_node append_child(const char* name)
        {
            n->kids.push_back(std::make_unique<vp_node>());
            n->kids.back()->name = name;
            return xml_node{n->kids.back().get()};
        }
        xml_attribute append_attribute(const char* name)
        {
            n->attrs.emplace_back(name, "");
            return {n, n->attrs.size() - 1};
        }
        xml_attribute attribute(const char* name) const
        {
            for (std::size_t i = 0; i < n->attrs.size(); ++i)
                if (n->attrs[i].first == name) return {n, i};
            return {};
        }
        xml_text text() const
        {
            return {n};
        }
        std::vector<xml_node> children(const char* name) const
        {
            std::vector<xml_node> r;
            for (auto& k : n->kids)
                if (k->name == name) r.push_back(xml_node{k.get()});
            return r;
        }
    };
    inline vp_node*& vp_last_doc()
    {
        static vp_node* d = nullptr;
        return d;
    }
    struct xml_document : xml_node
    {
        std::shared_ptr<vp_node> root = std::make_shared<vp_node>();
        xml_document()
        {
            n = root.get();
        }
        bool save_file(const char*)
        {
            static std::shared_ptr<vp_node> keep;
            keep          = root;
            vp_last_doc() = root.get();
            return true;
        }
    };
}
