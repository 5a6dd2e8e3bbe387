// C17: structures are released exactly once, by their owner, whatever happens to the array.
#include "foreign.hpp"
#include "sparrow/record_batch.hpp"

using namespace foreign;

// one step on the arrays s[0], s[1]
static void step(array* s, bool* live)
{
    size_t i = sx::choose("slot", 0, 1), j = 1 - i;
    switch (sx::choose("op", 0, 8))
    {
        case 0: if (live[i]) { s[j] = s[i]; live[j] = true; } break;
        case 1: if (live[i]) { s[j] = std::move(s[i]); live[j] = true; s[i] = array(); live[i] = false; } break;
        case 2: if (live[i]) { array t(s[i]); s[i] = t; } break;
        case 3: if (live[i]) { array t(std::move(s[i])); s[i] = std::move(t); } break;
        case 4: if (live[i]) { s[j] = s[i].slice(0, s[i].size()); live[j] = true; } break;
        case 5:
            if (live[i])
            {
                auto [a, c] = sparrow::extract_arrow_structures(std::move(s[i]));
                s[i] = array(std::move(a), std::move(c));
            }
            break;
        case 6:
            if (live[i])
            {
                auto [a, c] = sparrow::extract_arrow_structures(std::move(s[i]));
                s[i] = array();
                live[i] = false;
                a.release(&a);
                c.release(&c);
                SX_ASSERT(a.release == nullptr && c.release == nullptr, "marked released");
            }
            break;
        case 7: if (live[i]) s[i] = *&s[i]; break;
        default: s[i] = array(); live[i] = false;
    }
}
SX_ENTRY(c17_foreign_sequences, quick, "a foreign array of every layout and a foreign list in two slots, every sequence of 2 (thorough 3) of 9 operations (copy, move, self-assign, slice, extract and re-import, extract and release, destroy): each of the structures, children and dictionaries is released once")
{
    layout l = choose_layout();
    node* f = make(l, 2, 1, COUNTED, OMITTED);
    node* g = make(L_LIST, 1, 0, OMITTED, OMITTED);
    {
        array s[2];
        bool live[2] = {true, true};
        {
            ArrowArray fa = f->a;
            ArrowSchema fs = f->s;
            s[0] = array(std::move(fa), std::move(fs));
            ArrowArray ga = g->a;
            ArrowSchema gs = g->s;
            s[1] = array(std::move(ga), std::move(gs));
        }
        for (size_t k = 0; k < SX_BOUND(2, 3); ++k) step(s, live);
        for (size_t k = 0; k < 2; ++k)
            if (live[k])
                for (size_t i = 0; i < s[k].size(); ++i) sx::observe(s[k][i].has_value());
    }
    destroy(f, 1);
    destroy(g, 1);
    SX_REACH("foreign sequences");
}
SX_ENTRY(c17_own_sequences, quick, "an array of every layout built by sparrow and a string array in two slots, every sequence of 2 (thorough 3) of the same operations: nothing leaked, freed twice or used after release")
{
    layout l = choose_layout();
    array s[2];
    bool live[2] = {true, true};
    s[0] = zoo::make(l, 2);
    s[1] = zoo::make(L_STR, 1);
    for (size_t k = 0; k < SX_BOUND(2, 3); ++k) step(s, live);
    for (size_t k = 0; k < 2; ++k)
        if (live[k])
            for (size_t i = 0; i < s[k].size(); ++i) sx::observe(s[k][i].has_value());
    SX_REACH("own sequences");
}
static array import(node* f)
{
    ArrowArray a = f->a;
    ArrowSchema s = f->s;
    return array(std::move(a), std::move(s));
}
SX_ENTRY(c17_children, quick, "foreign arrays of every layout as children of sparrow's struct, list, fixed-size list, list view, union, dictionary and run-end arrays, which are then copied, moved, and extracted and released")
{
    layout l = choose_layout();
    node* f = make(l, 2, 0, COUNTED, OMITTED);
    node* g = make(P_I32, 2, 1, OMITTED, OMITTED);
    auto use = [&](auto&& t)
    {
        using A = std::remove_cvref_t<decltype(t)>;
        A b(t);
        A c(std::move(t));
        t = b;
        b = std::move(c);
        SX_ASSERT(f->ra == (std::is_same_v<A, int> ? 1 : 0), "still owned by the array");
        array e(std::move(b));
        auto [arr, sch] = sparrow::extract_arrow_structures(std::move(e));
        SX_ASSERT(f->ra == 0 && f->rs == 0, "still owned by the extracted structures");
        arr.release(&arr);
        sch.release(&sch);
        SX_ASSERT(f->ra == 1 && f->rs == 1, "released with the parent");
    };
    bool g_used = false;
    switch (sx::choose("parent", 0, 7))
    {
        case 0: { std::vector<array> v; v.push_back(import(f)); v.push_back(import(g)); g_used = true; use(sparrow::struct_array(std::move(v))); break; }
        case 1: use(sparrow::list_array(import(f), sparrow::list_array::offset_from_sizes(std::vector<size_t>{1, 1}))); break;
        case 2: use(sparrow::fixed_sized_list_array(uint64_t(1), import(f))); break;
        case 3: use(sparrow::list_view_array(import(f), sparrow::u8_buffer<int32_t>({0, 1}), sparrow::u8_buffer<uint32_t>({1, 1}))); break;
        case 4: { std::vector<array> v; v.push_back(import(f)); v.push_back(import(g)); g_used = true; use(sparrow::sparse_union_array(std::move(v), sparrow::u8_buffer<uint8_t>({0, 1}))); break; }
        case 5: { std::vector<array> v; v.push_back(import(f)); v.push_back(import(g)); g_used = true; use(sparrow::dense_union_array(std::move(v), sparrow::u8_buffer<uint8_t>({0, 1}), sparrow::u8_buffer<uint32_t>({0, 0}))); break; }
        case 6: use(sparrow::dictionary_encoded_array<uint8_t>(sparrow::u8_buffer<uint8_t>({0, 1}), import(f))); break;
        default: use(sparrow::run_end_encoded_array(array(sparrow::primitive_array<uint32_t>({1u, 3u})), import(f)));
    }
    destroy(f, 1);
    destroy(g, g_used ? 1 : 0);
    SX_REACH("children");
}
SX_ENTRY(c17_moved_child, quick, "a consumer moves a child (or the dictionary) out of structures exported by sparrow, in every order of releasing parent and child")
{
    layout l = static_cast<layout>(sx::choose("layout", L_LIST, L_RUN));
    array a = zoo::make(l, 2);
    auto [arr, sch] = sparrow::extract_arrow_structures(std::move(a));
    ArrowArray* ca = arr.dictionary ? arr.dictionary : arr.children[arr.n_children - 1];
    ArrowSchema* cs = sch.dictionary ? sch.dictionary : sch.children[sch.n_children - 1];
    ArrowArray ma = *ca;
    ArrowSchema ms = *cs;
    ca->release = nullptr;
    cs->release = nullptr;
    size_t order = sx::choose("order", 0, 2);
    if (order == 0)
    {
        arr.release(&arr);
        sch.release(&sch);
    }
    {
        array c(std::move(ma), std::move(ms));    // alive on its own
        for (size_t i = 0; i < c.size(); ++i) sx::observe(c[i].has_value());
        if (order == 1)
        {
            arr.release(&arr);
            sch.release(&sch);
            for (size_t i = 0; i < c.size(); ++i) sx::observe(c[i].has_value());
            SX_ASSERT(arr.release == nullptr && sch.release == nullptr, "the parent is released");
        }
    }
    if (order == 2)
    {
        arr.release(&arr);
        sch.release(&sch);
    }
    SX_REACH("moved child");
}
SX_ENTRY(c17_proxy, quick, "arrow_proxy owning both structures, only the array, or none, of every layout: copied, moved, swapped, assigned, viewed, extracted")
{
    using sparrow::arrow_proxy;
    layout l = choose_layout();
    node* f = make(l, 2, 0, COUNTED, OMITTED);
    size_t own = sx::choose("own", 0, 2);
    ArrowArray fa = f->a;
    ArrowSchema fs = f->s;
    bool extracted = false;
    {
        arrow_proxy p = own == 0 ? arrow_proxy(std::move(fa), std::move(fs)) : own == 1 ? arrow_proxy(std::move(fa), &f->s) : arrow_proxy(&f->a, &f->s);
        SX_ASSERT(p.owns_array() == (own < 2) && p.owns_schema() == (own < 1), "ownership");
        switch (sx::choose("op", 0, 6))
        {
            case 0: { arrow_proxy q(p); SX_ASSERT(q.owns_array() && q.owns_schema(), "a copy owns its structures"); q = p; break; }
            case 1: { arrow_proxy q(std::move(p)); SX_ASSERT(f->ra == 0, "moved, not released"); break; }
            case 2: { arrow_proxy q(p); std::swap(p, q); SX_ASSERT(p.owns_array() && p.owns_schema() && q.owns_array() == (own < 2), "ownership moves with the structures"); break; }
            case 3: { arrow_proxy v = p.view(); SX_ASSERT(!v.owns_array() && !v.owns_schema(), "a view owns nothing"); arrow_proxy w(std::move(v)); break; }
            case 4:
                if (own == 0)
                {
                    ArrowArray a = p.extract_array();
                    ArrowSchema s = p.extract_schema();
                    SX_ASSERT(f->ra == 0 && f->rs == 0, "extracted, not released");
                    a.release(&a);
                    s.release(&s);
                    extracted = true;
                }
                else if (own == 2) SX_THROWS(std::runtime_error, (void) p.extract_array(), "only owned structures can be extracted");
                else SX_THROWS(std::runtime_error, (void) p.extract_schema(), "only owned structures can be extracted");
                break;
            case 5: { arrow_proxy q(p); q = std::move(p); break; }
            default: { arrow_proxy s = p.slice(0, 1); arrow_proxy v = p.slice_view(0, 1); break; }
        }
        (void) extracted;
    }
    SX_ASSERT(f->ra == (own < 2 ? 1 : 0), "array released exactly when owned");
    SX_ASSERT(f->rs == (own < 1 ? 1 : 0), "schema released exactly when owned");
    if (own == 1) f->s.release(&f->s);
    destroy(f, own < 2 ? 1 : 0);
    SX_REACH("proxy");
}
SX_ENTRY(c17_set_child, quick, "a proxy (owning, half-owning, borrowing) on a sparrow struct of 2 children; every sequence of 3 (thorough 4) of set_child by pointer and by value, of pop_children and of add_child by pointer and by value, then destruction: every child passed by value is released once, none passed by pointer before its owner")
{
    using sparrow::arrow_proxy;
    constexpr size_t MAX = 6;
    node* f[MAX]{};
    bool by_value[MAX]{};
    size_t used = 0;
    std::vector<array> ch;
    ch.push_back(array(sparrow::primitive_array<int32_t>(std::vector<int32_t>{1})));
    ch.push_back(array(sparrow::primitive_array<int32_t>(std::vector<int32_t>{2})));
    auto [a, s] = sparrow::extract_arrow_structures(sparrow::struct_array(std::move(ch)));
    {
        size_t own = sx::choose("own", 0, 2);
        arrow_proxy p = own == 0 ? arrow_proxy(std::move(a), std::move(s)) : own == 1 ? arrow_proxy(std::move(a), &s) : arrow_proxy(&a, &s);
        for (size_t k = 0; k < SX_BOUND(3, 4); ++k)
        {
            const size_t op = sx::choose("op", 0, 3), n = p.n_children();
            if (op == 3)
            {
                if (n) p.pop_children(1);
                continue;
            }
            if (op < 2 && !n) continue;
            const size_t i = used++;
            f[i] = prim("i", 4, i + 1, 0, OMITTED);
            by_value[i] = op == 1 || (op == 2 && sx::choose("value", 0, 1));
            const size_t at = op == 2 ? n : sx::choose("at", 0, n - 1);
            if (by_value[i])
            {
                ArrowArray ca = f[i]->a;
                ArrowSchema cs = f[i]->s;
                if (op == 2) p.add_child(std::move(ca), std::move(cs));
                else p.set_child(at, std::move(ca), std::move(cs));
            }
            else if (op == 2) p.add_child(&f[i]->a, &f[i]->s);
            else p.set_child(at, &f[i]->a, &f[i]->s);
            SX_ASSERT(p.array().children[at]->length == static_cast<int64_t>(i + 1), "the child");
            SX_ASSERT(f[i]->ra == 0 && f[i]->rs == 0, "a present child is not released");
        }
        if (own == 2)
        {
            arrow_proxy q(p);    // a copy releases its own children only
            for (size_t i = 0; i < used; ++i) SX_ASSERT(f[i]->ra <= 1 && f[i]->rs <= 1, "released at most once");
        }
    }
    if (a.release) a.release(&a);
    if (s.release) s.release(&s);
    for (size_t i = 0; i < used; ++i)
    {
        if (!by_value[i])
        {
            if (f[i]->a.release) f[i]->a.release(&f[i]->a);
            if (f[i]->s.release) f[i]->s.release(&f[i]->s);
        }
        destroy(f[i], 1);
    }
    SX_REACH("set child");
}

SX_ENTRY(c17_set_dictionary, quick, "a proxy (owning, half-owning, borrowing) on a sparrow dictionary array; up to 3 times set_dictionary with foreign structures, sparrow's or none, then a copy and destruction: the first dictionary and each one given is released once, and the memory of those given stays the caller's")
{
    using sparrow::arrow_proxy;
    node* f[3]{};
    struct mine { ArrowArray a{}; ArrowSchema s{}; } g[3];
    auto [a, s] = sparrow::extract_arrow_structures(
        sparrow::dictionary_encoded_array<int8_t>(sparrow::u8_buffer<int8_t>({0, 1}), array(sparrow::primitive_array<int32_t>(std::vector<int32_t>{1, 2}))));
    const size_t times = sx::choose("times", 0, 3), own = sx::choose("own", 0, 2);
    {
        arrow_proxy p = own == 0 ? arrow_proxy(std::move(a), std::move(s)) : own == 1 ? arrow_proxy(std::move(a), &s) : arrow_proxy(&a, &s);
        for (size_t k = 0; k < times; ++k)
        {
            switch (sx::choose("with", 0, 2))
            {
                case 0:
                    f[k] = prim("i", 4, k + 3, 0, OMITTED);
                    p.set_dictionary(&f[k]->a, &f[k]->s);
                    SX_ASSERT(p.array().dictionary == &f[k]->a && p.dictionary()->length() == k + 3, "the dictionary");
                    break;
                case 1:
                {
                    std::tie(g[k].a, g[k].s) = sparrow::extract_arrow_structures(sparrow::primitive_array<int32_t>(std::vector<int32_t>{1, 2, 3}));
                    p.set_dictionary(&g[k].a, &g[k].s);
                    SX_ASSERT(p.array().dictionary == &g[k].a && p.dictionary()->length() == 3, "the dictionary");
                    break;
                }
                default: p.set_dictionary(nullptr, nullptr); SX_ASSERT(p.dictionary() == nullptr, "no dictionary");
            }
            for (size_t i = 0; i < k; ++i)
            {
                if (f[i]) SX_ASSERT(f[i]->ra == 1 && f[i]->rs == 1, "a replaced dictionary is released");
                SX_ASSERT(g[i].a.release == nullptr && g[i].s.release == nullptr, "a replaced dictionary is released");
            }
            if (f[k]) SX_ASSERT(f[k]->ra == 0 && f[k]->rs == 0, "the dictionary is not released");
        }
        if (sx::choose("copy", 0, 1))
        {
            arrow_proxy q(p);
            p = q;
        }
    }
    if (a.release) a.release(&a);
    if (s.release) s.release(&s);
    for (size_t k = 0; k < 3; ++k)
    {
        if (f[k])
        {
            if (f[k]->a.release) f[k]->a.release(&f[k]->a);
            if (f[k]->s.release) f[k]->s.release(&f[k]->s);
            destroy(f[k], 1);
        }
        if (g[k].a.release) g[k].a.release(&g[k].a);
        if (g[k].s.release) g[k].s.release(&g[k].s);
    }
    SX_REACH("set dictionary");
}

SX_ENTRY(c17_wide, quick, "structs, unions and a record batch of 5, 12 or 20 foreign arrays: copied, moved, sliced, extracted and released: each of the structures is released once, with its owner")
{
    static const size_t counts[] = {5, 12, 20};
    const size_t k = counts[sx::choose("k", 0, 2)];
    std::vector<node*> f;
    for (size_t i = 0; i < k; ++i) f.push_back(make(i % 3 == 1 ? L_STR : i % 3 == 2 ? L_STRUCT : P_I32, 2, 0, OMITTED, OMITTED));
    auto released = [&](int times)
    {
        for (node* n : f) SX_ASSERT(n->ra == times && n->rs == times, "released with the owner");
    };
    std::vector<array> v;
    for (node* n : f) v.push_back(import(n));
    auto use = [&](array a)
    {
        array b(a);
        array c(std::move(a));
        released(0);
        b = c.slice(1, 2);
        a = std::move(c);
        released(0);
        auto [arr, sch] = sparrow::extract_arrow_structures(std::move(a));
        released(0);
        SX_ASSERT(arr.n_children == static_cast<int64_t>(k) && sch.n_children == static_cast<int64_t>(k), "all the children");
        if (sx::choose("again", 0, 1))
        {
            array d(std::move(arr), std::move(sch));
            released(0);
            d = std::move(b);
            released(1);
        }
        else
        {
            arr.release(&arr);
            sch.release(&sch);
            released(1);
        }
    };
    switch (sx::choose("owner", 0, 3))
    {
        case 0: use(array(sparrow::struct_array(std::move(v)))); break;
        case 1: use(array(sparrow::sparse_union_array(std::move(v), sparrow::u8_buffer<uint8_t>({0, static_cast<uint8_t>(k - 1)})))); break;
        case 2: use(array(sparrow::dense_union_array(std::move(v), sparrow::u8_buffer<uint8_t>({0, static_cast<uint8_t>(k - 1)}), sparrow::u8_buffer<uint32_t>({0, 1})))); break;
        default:
        {
            std::vector<std::string> names;
            for (size_t i = 0; i < k; ++i) names.push_back(std::string(1, static_cast<char>('a' + i)));
            {
                sparrow::record_batch a(names, std::move(v));
                sparrow::record_batch b(a), c(std::move(a));
                b = c;
                released(0);
            }
            released(1);
        }
    }
    for (node* n : f) destroy(n, 1);
    SX_REACH("wide");
}
