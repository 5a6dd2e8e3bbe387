// ArrowArray/ArrowSchema structures as another producer would make them: buffers of exactly the prescribed
// size, its own release callbacks (which free everything and count), any offset, any null count.
#pragma once
#include "spec.hpp"

namespace foreign
{
    using namespace spec;

    struct node
    {
        ArrowArray a{};
        ArrowSchema s{};
        int ra = 0, rs = 0;          // calls of the release callbacks
        node* kid[3]{};
        node* dict = nullptr;
        const void* bufs[3]{};
        unsigned char* own[3]{};
        size_t size[3]{};            // of the buffers
        ArrowArray* ka[3]{};
        ArrowSchema* ks[3]{};
        char fmt[16]{};
    };
    inline void release_array(ArrowArray* p)
    {
        auto* n = static_cast<node*>(p->private_data);
        SX_ASSERT(n->ra == 0, "array released once");
        ++n->ra;
        for (int64_t i = 0; i < p->n_children; ++i)
            if (p->children[i]->release) p->children[i]->release(p->children[i]);
        if (p->dictionary && p->dictionary->release) p->dictionary->release(p->dictionary);
        for (auto*& b : n->own) { delete[] b; b = nullptr; }
        p->release = nullptr;
    }
    inline void release_schema(ArrowSchema* p)
    {
        auto* n = static_cast<node*>(p->private_data);
        SX_ASSERT(n->rs == 0, "schema released once");
        ++n->rs;
        for (int64_t i = 0; i < p->n_children; ++i)
            if (p->children[i]->release) p->children[i]->release(p->children[i]);
        if (p->dictionary && p->dictionary->release) p->dictionary->release(p->dictionary);
        p->release = nullptr;
    }
    enum validity { OMITTED, COUNTED, UNCOUNTED, VALIDITIES };
    inline node* make_node(const char* fmt, int64_t len, int64_t off, int64_t nbuf)
    {
        node* n = new node;
        std::memcpy(n->fmt, fmt, std::strlen(fmt) + 1);
        n->a.length = len;
        n->a.offset = off;
        n->a.n_buffers = nbuf;
        n->a.buffers = nbuf ? n->bufs : nullptr;
        n->a.release = &release_array;
        n->a.private_data = n;
        n->s.format = n->fmt;
        n->s.flags = 2;    // nullable
        n->s.release = &release_schema;
        n->s.private_data = n;
        return n;
    }
    // a buffer of exactly size bytes, omitted when empty
    inline unsigned char* buf(node* n, int i, size_t size)
    {
        if (size == 0) return nullptr;
        n->size[i] = size;
        n->own[i] = new unsigned char[size];
        n->bufs[i] = n->own[i];
        return n->own[i];
    }
    template <class T>
    inline void put(unsigned char* p, size_t i, T x) { std::memcpy(p + i * sizeof(T), &x, sizeof(T)); }
    inline bool plain = false;    // chosen contents, for arrays of hundreds of elements
    inline unsigned char* sym_buf(node* n, int i, size_t size)
    {
        unsigned char* p = buf(n, i, size);
        if (plain)
        {
            for (size_t k = 0; k < size; ++k) p[k] = static_cast<unsigned char>(k * 37 + (k >> 8) * 11 + 5);
            return p;
        }
        for (size_t k = 0; k < size; ++k) p[k] = sx::sym<unsigned char>("b");
        return p;
    }
    inline bool concrete_validity = false;    // for arrays of many elements
    inline void make_validity(node* n, validity v)
    {
        if (v == OMITTED) { n->a.null_count = 0; return; }
        const size_t end = static_cast<size_t>(n->a.offset + n->a.length);
        if (concrete_validity || plain)
        {
            static const unsigned char pattern[] = {0xB5, 0x6D, 0xDA};
            unsigned char* p = buf(n, 0, (end + 7) / 8);
            for (size_t i = 0; i < (end + 7) / 8; ++i) p[i] = pattern[i % 3];
        }
        else sym_buf(n, 0, (end + 7) / 8);
        if (v == UNCOUNTED) { n->a.null_count = -1; return; }
        n->a.null_count = nulls_of(n->a, n->s);
    }
    inline void add(node* n, node* child, int i)
    {
        n->kid[i] = child;
        n->ka[i] = &child->a;
        n->ks[i] = &child->s;
        n->a.children = n->ka;
        n->s.children = n->ks;
        n->a.n_children = n->s.n_children = i + 1;
    }
    inline node* prim(const char* fmt, size_t width, size_t len, size_t off, validity v)
    {
        node* n = make_node(fmt, static_cast<int64_t>(len), static_cast<int64_t>(off), 2);
        sym_buf(n, 1, (len + off) * width);
        make_validity(n, v);
        return n;
    }
    template <class O>
    inline node* str(const char* fmt, size_t len, size_t off, validity v, size_t base = 1, size_t mod = 3)
    {
        node* n = make_node(fmt, static_cast<int64_t>(len), static_cast<int64_t>(off), 3);
        const size_t end = len + off;
        unsigned char* o = buf(n, 1, (end + 1) * sizeof(O));
        size_t at = base;
        put<O>(o, 0, static_cast<O>(at));
        for (size_t i = 0; i < end; ++i)
        {
            at += (i * 2 + 1) % mod;
            put<O>(o, i + 1, static_cast<O>(at));
        }
        sym_buf(n, 2, at);
        make_validity(n, v);
        return n;
    }
    template <class O>
    inline node* list(const char* fmt, size_t len, size_t off, validity v, validity cv, bool strings)
    {
        node* n = make_node(fmt, static_cast<int64_t>(len), static_cast<int64_t>(off), 2);
        const size_t end = len + off;
        unsigned char* o = buf(n, 1, (end + 1) * sizeof(O));
        size_t at = 1;
        put<O>(o, 0, static_cast<O>(at));
        for (size_t i = 0; i < end; ++i)
        {
            at += list_len(i);
            put<O>(o, i + 1, static_cast<O>(at));
        }
        add(n, strings ? str<int32_t>("u", at, 1, cv) : prim("i", 4, at, 1, cv), 0);
        make_validity(n, v);
        return n;
    }
    template <class O>
    inline node* list_view(const char* fmt, size_t len, size_t off, validity v, validity cv)
    {
        node* n = make_node(fmt, static_cast<int64_t>(len), static_cast<int64_t>(off), 3);
        const size_t end = len + off;
        unsigned char* o = buf(n, 1, end * sizeof(O));
        unsigned char* z = buf(n, 2, end * sizeof(O));
        for (size_t i = 0; i < end; ++i)
        {
            put<O>(o, i, static_cast<O>(plain ? i * 101 % 290 : (i * 2) % 3));
            put<O>(z, i, static_cast<O>(plain ? i % 7 : (i + 1) % 3 ? 1 : 0));
        }
        add(n, prim("i", 4, plain ? 300 : 3, 1, cv), 0);
        make_validity(n, v);
        return n;
    }
    // an array of the layout; v: its validity, cv: that of its children
    inline node* make(layout l, size_t len, size_t off, validity v, validity cv)
    {
        const auto n64 = static_cast<int64_t>(len), o64 = static_cast<int64_t>(off);
        const size_t end = len + off;
        switch (l)
        {
            case P_U8: return prim("C", 1, len, off, v);
            case P_F64: return prim("g", 8, len, off, v);
            case L_STR: return str<int32_t>("u", len, off, v);
            case L_LIST: return list<int32_t>("+l", len, off, v, cv, true);
            case L_BIGLIST: return list<int64_t>("+L", len, off, v, cv, false);
            case L_LISTVIEW: return list_view<int32_t>("+vl", len, off, v, cv);
            case L_BIGLISTVIEW: return list_view<int64_t>("+vL", len, off, v, cv);
            case L_FIXED:
            {
                node* n = make_node("+w:2", n64, o64, 1);
                add(n, prim("i", 4, 2 * end, 1, cv), 0);
                make_validity(n, v);
                return n;
            }
            case L_STRUCT:
            {
                node* n = make_node("+s", n64, o64, 1);
                add(n, prim("i", 4, end, 1, cv), 0);
                add(n, str<int32_t>("u", end, 0, cv), 1);
                make_validity(n, v);
                return n;
            }
            case L_SPARSE:
            {
                node* n = make_node("+us:4,2", n64, o64, 1);
                add(n, prim("i", 4, end, 1, cv), 0);
                add(n, str<int32_t>("u", end, 0, cv), 1);
                unsigned char* ids = buf(n, 0, end);
                for (size_t i = 0; i < end; ++i) ids[i] = i % 2 ? 4 : 2;
                return n;
            }
            case L_DENSE:
            {
                node* n = make_node("+ud:4,2", n64, o64, 2);
                add(n, prim("i", 4, plain ? 290 : 2, 1, cv), 0);
                add(n, str<int32_t>("u", plain ? 290 : 2, 1, cv), 1);
                unsigned char* ids = buf(n, 0, end);
                unsigned char* at = buf(n, 1, end * 4);
                for (size_t i = 0; i < end; ++i)
                {
                    ids[i] = i % 2 ? 4 : 2;
                    put<int32_t>(at, i, static_cast<int32_t>(plain ? i * 31 % 290 : i / 2 % 2));
                }
                return n;
            }
            case L_DICT:
            {
                node* n = make_node("c", n64, o64, 2);
                unsigned char* k = buf(n, 1, end);
                for (size_t i = 0; i < end; ++i) k[i] = static_cast<unsigned char>(plain ? i * 37 % 100 : (i + 1) % 2);
                n->dict = str<int32_t>("u", plain ? 100 : 2, 1, cv);
                n->a.dictionary = &n->dict->a;
                n->s.dictionary = &n->dict->s;
                make_validity(n, v);
                return n;
            }
            case L_RUN:
            {
                node* n = make_node("+r", n64, o64, 0);
                size_t r = 0, at = 0;
                const size_t step = plain ? 8 : 1, mod = plain ? 9 : 2;
                while (at < end) at += step + r++ % mod;
                node* e = make_node("i", static_cast<int64_t>(r), 0, 2);
                unsigned char* p = buf(e, 1, r * 4);
                at = 0;
                for (size_t i = 0; i < r; ++i) put<int32_t>(p, i, static_cast<int32_t>(at += step + i % mod));
                add(n, e, 0);
                add(n, prim("i", 4, r, 1, cv), 1);
                return n;
            }
            case L_NULL:
            {
                node* n = make_node("n", n64, o64, 0);
                n->a.null_count = n64;
                return n;
            }
            case L_DEEP:
            {
                node* n = make_node("+s", n64, o64, 1);
                add(n, make(L_LIST, end, 0, cv, v), 0);
                add(n, make(L_DICT, end, 1, cv, v), 1);
                make_validity(n, v);
                return n;
            }
            default: return prim("i", 4, len, off, v);
        }
    }
    // every structure of the tree released the given number of times; frees the nodes
    inline void destroy(node* n, int times)
    {
        SX_ASSERT(n->ra == times, "every array released exactly when owned");
        SX_ASSERT(n->rs == times, "every schema released exactly when owned");
        if (times == 0)
        {
            // still the producer's: it releases its own buffers
            for (auto* b : n->own) delete[] b;
        }
        for (node* k : n->kid)
            if (k) destroy(k, times);
        if (n->dict) destroy(n->dict, times);
        delete n;
    }
    // a bit-for-bit record of the structures, to see that a borrower left them alone
    struct record
    {
        ArrowArray a;
        ArrowSchema s;
    };
    inline record save(const node* n) { return {n->a, n->s}; }
    inline bool unchanged(const node* n, const record& r)
    {
        return std::memcmp(&n->a, &r.a, sizeof(ArrowArray)) == 0 && std::memcmp(&n->s, &r.s, sizeof(ArrowSchema)) == 0;
    }
}
