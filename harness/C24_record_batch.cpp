// C24: record_batch maps names to columns consistently.
#include "sx.hpp"
#include <memory>
#include <string>
#include <vector>
#include "sparrow/record_batch.hpp"
#include "zoo.hpp"

using sparrow::array;
using sparrow::record_batch;
using names_t = std::vector<std::string>;
using columns_t = std::vector<array>;

static std::string name()
{
    std::string s(sx::choose("chars", 0, 2), 'a');
    for (char& c : s) c = static_cast<char>(sx::sym<unsigned char>("c"));
    return s;
}
static bool eq(const std::string& a, const std::string& b)
{
    if (a.size() != b.size()) return false;
    bool ok = true;
    for (size_t i = 0; i < a.size(); ++i) ok &= a[i] == b[i];
    return ok;
}
// k distinct names
static names_t distinct(size_t k)
{
    names_t v;
    for (size_t i = 0; i < k; ++i)
    {
        v.push_back(name());
        for (size_t j = 0; j < i; ++j) sx::assume(!eq(v[i], v[j]));
    }
    return v;
}
static zoo::layout kinds[] = {zoo::P_I32, zoo::L_STR, zoo::L_LIST, zoo::P_F64};
static columns_t make_columns(size_t k, size_t n, size_t from = 0)
{
    columns_t v;
    for (size_t i = 0; i < k; ++i) v.push_back(zoo::make(kinds[(i + from) % 4], n));
    return v;
}
static bool same_array(const array& a, const array& b)
{
    if (a.size() != b.size()) return false;
    bool ok = true;
    for (size_t i = 0; i < a.size(); ++i) ok &= zoo::deep(a[i], b[i]);
    return ok;
}
static void is(const record_batch& b, const names_t& names, const columns_t& columns, size_t rows, bool lookup = true)
{
    const size_t k = names.size();
    SX_ASSERT(b.nb_columns() == k, "number of columns");
    SX_ASSERT(b.nb_rows() == (k ? rows : 0), "number of rows");
    SX_ASSERT(b.names().size() == k && b.columns().size() == k, "number of names and columns");
    for (size_t i = 0; i < k; ++i)
    {
        SX_ASSERT(eq(b.get_column_name(i), names[i]) && eq(b.names()[i], names[i]), "name of a column");
        SX_ASSERT(same_array(b.get_column(i), columns[i]), "column at an index");
        SX_ASSERT(&b.columns()[i] == &b.get_column(i), "columns()");
        SX_ASSERT(b.contains_column(names[i]), "contains_column");
        SX_ASSERT(&b.get_column(names[i]) == &b.get_column(i), "column of a name");
    }
    if (!lookup) return;
    const std::string q = name();
    bool found = false;
    for (size_t i = 0; i < k; ++i) found |= eq(q, names[i]);
    SX_ASSERT(b.contains_column(q) == found, "contains_column of any name");
    bool threw = false;
    const array* p = nullptr;
    try { p = &b.get_column(q); }
    catch (const std::out_of_range&) { threw = true; }
    SX_ASSERT(threw == !found, "get_column throws exactly for unknown names");
    for (size_t i = 0; i < k; ++i) SX_ASSERT(!eq(q, names[i]) | (p == &b.get_column(i)), "get_column of any name");
}
SX_ENTRY(c24_construct, quick, "0..2 columns (int32, string, list) of 0..2 rows, any distinct names of up to 2 characters, any looked-up name of up to 2")
{
    const size_t k = sx::choose("k", 0, 2), n = sx::choose("n", 0, SX_BOUND(1, 2));
    const names_t names = distinct(k);
    const columns_t columns = make_columns(k, n, sx::choose("from", 0, 2));
    const record_batch b(names, columns);
    is(b, names, columns, n);
}
SX_ENTRY(c24_sources, quick, "2 columns of 1 row: construction from ranges kept, moved or viewed, and from a list of pairs")
{
    names_t names = distinct(2);
    columns_t columns = make_columns(2, 1);
    const names_t names0 = names;
    const columns_t columns0 = columns;
    auto kept = [&]
    {
        SX_ASSERT(names.size() == 2 && columns.size() == 2, "the source ranges are kept");
        for (size_t i = 0; i < 2; ++i) SX_ASSERT(eq(names[i], names0[i]) && same_array(columns[i], columns0[i]), "the source ranges are kept");
    };
    switch (sx::choose("source", 0, 4))
    {
        case 0: { record_batch b(names, columns); kept(); columns.clear(); is(b, names0, columns0, 1); break; }
        case 1: { record_batch b(std::move(names), std::move(columns)); is(b, names0, columns0, 1); break; }
        case 2: { record_batch b(names | std::views::all, columns | std::views::all); kept(); columns.clear(); is(b, names0, columns0, 1); break; }
        case 3: { record_batch b{{names[0], columns[0]}, {names[1], columns[1]}}; kept(); columns.clear(); is(b, names0, columns0, 1); break; }
        default:
        {
            auto t = names | std::views::transform([](const std::string& s) { return s; });
            record_batch b(t, std::ranges::subrange(columns.begin(), columns.end()));
            kept();
            columns.clear();
            is(b, names0, columns0, 1);
        }
    }
}
SX_ENTRY(c24_history, quick, "two batches of 0..2 columns of 0..1 rows: copies, moves, assignments, self-assignment, swap; sources destroyed before reading")
{
    const size_t k = sx::choose("k", 0, 2), l = sx::choose("l", 0, 2);
    const names_t na = k == 2 ? names_t{"a", ""} : names_t(k, "bc"), nb = l == 2 ? names_t{"", "bc"} : names_t(l, "a");
    const columns_t ca = make_columns(k, 2), cb = make_columns(l, 1, 1);
    auto a = std::make_unique<record_batch>(na, ca), b = std::make_unique<record_batch>(nb, cb);
    switch (sx::choose("op", 0, 8))
    {
        case 0: { record_batch c(*a); is(*a, na, ca, 2, false); a.reset(); is(c, na, ca, 2); break; }
        case 1: { record_batch c(std::move(*a)); a.reset(); is(c, na, ca, 2); break; }
        case 2: *b = *a; is(*a, na, ca, 2, false); a.reset(); is(*b, na, ca, 2); break;
        case 3: *b = std::move(*a); a.reset(); is(*b, na, ca, 2); break;
        case 4: { record_batch& r = *a; *a = r; is(*a, na, ca, 2); break; }
        case 5: std::swap(*a, *b); is(*a, nb, cb, 1); is(*b, na, ca, 2); break;
        case 6: { record_batch c(std::move(*a)); *a = c; is(*a, na, ca, 2, false); *a = std::move(c); is(*a, na, ca, 2); break; }
        case 7: { std::vector<record_batch> v; v.push_back(*a); v.push_back(std::move(*b)); v.push_back(v[0]); a.reset(); is(v[0], na, ca, 2, false); is(v[1], nb, cb, 1, false); is(v[2], na, ca, 2, false); break; }
        default: { record_batch c(*a); c = *b; b.reset(); a.reset(); is(c, nb, cb, 1); record_batch d(c); c = record_batch(na, ca); is(c, na, ca, 2, false); is(d, nb, cb, 1, false); }
    }
}
SX_ENTRY(c24_equality, quick, "pairs of batches of 0..2 columns of 0..1 rows, any names of 1 character, any int32 and string contents")
{
    const size_t k = sx::choose("k", 0, 2), l = sx::choose("l", 0, 2), n = sx::choose("n", 0, 1), m = sx::choose("m", 0, 1);
    auto make_names = [](size_t c)
    {
        names_t v;
        for (size_t i = 0; i < c; ++i) v.push_back(std::string(1, static_cast<char>(sx::sym<unsigned char>("c"))));
        if (c == 2) sx::assume(v[0][0] != v[1][0]);
        return v;
    };
    const names_t na = make_names(k), nb = make_names(l);
    const columns_t ca = make_columns(k, n), cb = make_columns(l, m);
    const record_batch a(na, ca), b(nb, cb);
    bool e = k == l;
    if (e)
        for (size_t i = 0; i < k; ++i) e &= eq(na[i], nb[i]) & same_array(ca[i], cb[i]);
    SX_ASSERT((a == b) == e, "batches are equal exactly when names and columns are");
    SX_ASSERT((a != b) == !e && (b == a) == e, "inequality, symmetry");
    SX_ASSERT(a == a && record_batch(a) == a, "reflexivity, copies are equal");
}

SX_ENTRY(c24_long, quick, "12 or 20 columns of 3 rows with names of up to 40 characters, most with a common prefix, in no order: every lookup, lookups of names not present, copies and assignment")
{
    const size_t k = sx::choose("k", 0, 1) ? 20 : 12;
    names_t names;
    columns_t columns;
    for (size_t i = 0; i < k; ++i)
    {
        names.push_back(std::string(i % 3 == 2 ? 2 : 30, 'a') + std::string(i * 7 % 10, 'b') + static_cast<char>('0' + i * 7 % k));
        const int32_t x = sx::sym<int32_t>("x");
        columns.push_back(array(sparrow::primitive_array<int32_t>({x, static_cast<int32_t>(i), 0})));
    }
    auto all = [&](const record_batch& b)
    {
        is(b, names, columns, 3, false);
        for (const std::string& q : {std::string(), std::string(30, 'a'), names[k - 1] + "0", names[0].substr(0, names[0].size() - 1), std::string(30, 'a') + "bbb"})
        {
            bool found = false;
            for (size_t i = 0; i < k; ++i) found |= eq(q, names[i]);
            SX_ASSERT(b.contains_column(q) == found, "contains_column");
            if (!found) SX_THROWS(std::out_of_range, b.get_column(q), "get_column of an unknown name throws");
        }
    };
    record_batch a(names, columns);
    switch (sx::choose("op", 0, 3))
    {
        case 0: all(a); break;
        case 1: { const record_batch b(a); all(b); all(a); SX_ASSERT(a == b, "equal"); break; }
        case 2: { record_batch b(names_t{"z"}, columns_t{columns[0]}); b = a; all(b); record_batch c(std::move(b)); all(c); break; }
        default:
        {
            names_t other = names;
            std::swap(other[k - 1], other[k - 2]);
            const record_batch b(other, columns);
            SX_ASSERT(a != b, "batches with other names differ");
            const int32_t x = sx::sym<int32_t>("y");
            columns_t c = columns;
            c[k - 1] = array(sparrow::primitive_array<int32_t>({x, static_cast<int32_t>(k - 1), 0}));
            const arr::elem_t e = columns[k - 1][0], f = c[k - 1][0];
            SX_ASSERT((a == record_batch(names, c)) == zoo::deep(e, f), "batches are equal exactly when the columns are");
        }
    }
    SX_REACH("long");
}
