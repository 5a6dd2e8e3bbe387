// Run-time library linked into every bitcode module handed to symex.  It stands in for libstdc++.so /
// libsupc++ / libc: allocation, exceptions, guards, std exception classes, and the few out-of-line
// libstdc++ functions sparrow reaches.  Everything else of the standard library is header code and is
// executed as it is.
#include <cerrno>
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <exception>
#include <functional>
#include <list>
#include <map>
#include <memory_resource>
#include <new>
#include <pthread.h>
#include <stdexcept>
#include <string>
#include <typeinfo>
#include <unordered_map>

extern "C"
{
    void* __sx_alloc(uint64_t size, uint64_t kind);
    void __sx_free(void* p, uint64_t kind);
    [[noreturn]] void __sx_fail(const char* kind, const char* msg);
    [[noreturn]] void __sx_unwind(void* exn, void* tinfo);
    int __sx_is_a(const void* ti, const void* base);
    uint64_t __sx_size(void* p);
    uint64_t __sx_concretize(uint64_t);
    int __sx_is_const(uint64_t);
}

// ---------------------------------------------------------------- allocation
static constexpr uint64_t too_big = uint64_t(1) << 40;

void* operator new(std::size_t n)
{
    n = __sx_concretize(n);
    if (n > too_big) throw std::bad_alloc();
    return __sx_alloc(n, 0);
}
void* operator new[](std::size_t n)
{
    n = __sx_concretize(n);
    if (n > too_big) throw std::bad_alloc();
    return __sx_alloc(n, 1);
}
void* operator new(std::size_t n, const std::nothrow_t&) noexcept
{
    n = __sx_concretize(n);
    return n > too_big ? nullptr : __sx_alloc(n, 0);
}
void* operator new[](std::size_t n, const std::nothrow_t&) noexcept
{
    n = __sx_concretize(n);
    return n > too_big ? nullptr : __sx_alloc(n, 1);
}
void* operator new(std::size_t n, std::align_val_t) { return ::operator new(n); }
void operator delete(void* p) noexcept { __sx_free(p, 0); }
void operator delete(void* p, std::size_t n) noexcept
{
    if (p && __sx_size(p) != n) __sx_fail("sized-delete-mismatch", "operator delete(p, n) with a size that is not the allocated size");
    __sx_free(p, 0);
}
void operator delete(void* p, const std::nothrow_t&) noexcept { __sx_free(p, 0); }
void operator delete(void* p, std::align_val_t) noexcept { __sx_free(p, 0); }
void operator delete(void* p, std::size_t, std::align_val_t) noexcept { __sx_free(p, 0); }
void operator delete[](void* p) noexcept { __sx_free(p, 1); }
void operator delete[](void* p, std::size_t) noexcept { __sx_free(p, 1); }
namespace std { const nothrow_t nothrow{}; }

extern "C" void* malloc(size_t n)
{
    n = __sx_concretize(n);
    return n > too_big ? nullptr : __sx_alloc(n, 2);
}
extern "C" void free(void* p) { __sx_free(p, 2); }
extern "C" void* calloc(size_t a, size_t b)
{
    void* p = malloc(a * b);
    if (p) memset(p, 0, a * b);
    return p;
}
extern "C" void* realloc(void* p, size_t n)
{
    void* q = malloc(n);
    if (p && q)
    {
        size_t o = __sx_size(p);
        memcpy(q, p, o < n ? o : n);
        free(p);
    }
    return q;
}

// ---------------------------------------------------------------- exceptions
struct sx_header
{
    std::type_info* tinfo;   // at exn - 32: read by the engine on `resume`
    void (*dtor)(void*);
    int64_t handlers;        // number of active handlers; negative: being rethrown
    void* next_caught;
};
static_assert(sizeof(sx_header) == 32);
static void* caught_top = nullptr;
static int64_t uncaught_n = 0;
static sx_header* hdr(void* e) { return reinterpret_cast<sx_header*>(static_cast<char*>(e) - 32); }

extern "C" void* __cxa_allocate_exception(size_t n) noexcept
{
    char* p = static_cast<char*>(__sx_alloc(n + 32, 3));
    memset(p, 0, 32);
    return p + 32;
}
extern "C" void __cxa_free_exception(void* e) noexcept { __sx_free(static_cast<char*>(e) - 32, 3); }
extern "C" void __cxa_throw(void* e, std::type_info* t, void (*d)(void*))
{
    sx_header* h = hdr(e);
    h->tinfo = t;
    h->dtor = d;
    h->handlers = 0;
    ++uncaught_n;
    __sx_unwind(e, t);
}
extern "C" void* __cxa_begin_catch(void* e) noexcept
{
    sx_header* h = hdr(e);
    --uncaught_n;
    if (h->handlers < 0) h->handlers = -h->handlers + 1;
    else h->handlers++;
    if (caught_top != e)
    {
        h->next_caught = caught_top;
        caught_top = e;
    }
    return e;
}
extern "C" void* __cxa_get_exception_ptr(void* e) noexcept { return e; }
extern "C" void __cxa_end_catch()
{
    void* e = caught_top;
    if (!e) return;
    sx_header* h = hdr(e);
    if (h->handlers < 0)
    {
        // rethrown: leaves the stack, stays alive
        if (++h->handlers == 0) caught_top = h->next_caught;
        return;
    }
    if (--h->handlers == 0)
    {
        caught_top = h->next_caught;
        if (h->dtor) h->dtor(e);
        __cxa_free_exception(e);
    }
}
extern "C" void __cxa_rethrow()
{
    void* e = caught_top;
    if (!e) __sx_fail("terminate", "rethrow without an active exception");
    sx_header* h = hdr(e);
    h->handlers = -h->handlers;
    ++uncaught_n;
    __sx_unwind(e, h->tinfo);
}
extern "C" int __gxx_personality_v0(...) { return 0; }
extern "C" void __cxa_pure_virtual() { __sx_fail("pure-virtual-call", "pure virtual function called"); }
extern "C" void __cxa_deleted_virtual() { __sx_fail("pure-virtual-call", "deleted virtual function called"); }
extern "C" int __cxa_guard_acquire(uint8_t* g) { return *g == 0; }
extern "C" void __cxa_guard_release(uint8_t* g) { *g = 1; }
extern "C" void __cxa_guard_abort(uint8_t*) {}
extern "C" void __cxa_throw_bad_array_new_length() { throw std::bad_array_new_length(); }
extern "C" void __cxa_bad_cast() { throw std::bad_cast(); }
namespace std
{
    void terminate() noexcept { __sx_fail("terminate", "std::terminate called"); }
    bool uncaught_exception() noexcept { return uncaught_n > 0; }
    int uncaught_exceptions() noexcept { return static_cast<int>(uncaught_n); }
}

// dynamic_cast: only what single/virtual-free multiple inheritance needs
namespace
{
    struct class_ti { const void* vt; const char* name; };
    struct si_ti : class_ti { const class_ti* base; };
    struct vmi_ti : class_ti { uint32_t flags, n; struct { const class_ti* base; int64_t off_flags; } b[1]; };
}
extern "C" char _ZTVN10__cxxabiv117__class_type_infoE[];
extern "C" char _ZTVN10__cxxabiv120__si_class_type_infoE[];
extern "C" char _ZTVN10__cxxabiv121__vmi_class_type_infoE[];
static const char* find_base(const char* obj, const class_ti* t, const void* dst)
{
    if (t == dst) return obj;
    if (t->vt == _ZTVN10__cxxabiv120__si_class_type_infoE + 16) return find_base(obj, static_cast<const si_ti*>(t)->base, dst);
    if (t->vt == _ZTVN10__cxxabiv121__vmi_class_type_infoE + 16)
    {
        const vmi_ti* v = static_cast<const vmi_ti*>(t);
        for (uint32_t i = 0; i < v->n; ++i)
            if (const char* r = find_base(obj + (v->b[i].off_flags >> 8), v->b[i].base, dst)) return r;
    }
    return nullptr;
}
extern "C" void* __dynamic_cast(const void* sub, const void*, const void* dst, ptrdiff_t)
{
    const int64_t* vt = *static_cast<const int64_t* const*>(sub);
    const char* whole = static_cast<const char*>(sub) + vt[-2];
    const class_ti* t = reinterpret_cast<const class_ti*>(vt[-1]);
    return const_cast<char*>(find_base(whole, t, dst));
}

// ---------------------------------------------------------------- std exception classes
namespace std
{
    exception::~exception() noexcept {}
    const char* exception::what() const noexcept { return "std::exception"; }
    bad_exception::~bad_exception() noexcept {}
    const char* bad_exception::what() const noexcept { return "std::bad_exception"; }
    bad_alloc::~bad_alloc() noexcept {}
    const char* bad_alloc::what() const noexcept { return "std::bad_alloc"; }
    bad_array_new_length::~bad_array_new_length() noexcept {}
    const char* bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
    bad_cast::~bad_cast() noexcept {}
    const char* bad_cast::what() const noexcept { return "std::bad_cast"; }
    bad_typeid::~bad_typeid() noexcept {}
    const char* bad_typeid::what() const noexcept { return "std::bad_typeid"; }
    bad_function_call::~bad_function_call() noexcept {}
    const char* bad_function_call::what() const noexcept { return "bad_function_call"; }

    static const char* dup(const char* s, size_t n)
    {
        char* p = static_cast<char*>(__sx_alloc(n + 1, 2));
        memcpy(p, s, n);
        p[n] = 0;
        return p;
    }
    __cow_string::__cow_string() { _M_p = dup("", 0); }
    __cow_string::__cow_string(const char* s, size_t n) { _M_p = dup(s, n); }
    __cow_string::__cow_string(const std::string& s) { _M_p = dup(s.data(), s.size()); }
    __cow_string::__cow_string(const __cow_string& o) noexcept { _M_p = dup(o._M_p, strlen(o._M_p)); }
    __cow_string::__cow_string(__cow_string&& o) noexcept { _M_p = dup(o._M_p, strlen(o._M_p)); }
    __cow_string& __cow_string::operator=(const __cow_string& o) noexcept
    {
        if (this != &o)
        {
            __sx_free(const_cast<char*>(_M_p), 2);
            _M_p = dup(o._M_p, strlen(o._M_p));
        }
        return *this;
    }
    __cow_string& __cow_string::operator=(__cow_string&& o) noexcept { return *this = o; }
    __cow_string::~__cow_string() { __sx_free(const_cast<char*>(_M_p), 2); }

    logic_error::logic_error(const char* s) : _M_msg(s, strlen(s)) {}
    logic_error::logic_error(const string& s) : _M_msg(s) {}
    logic_error::logic_error(const logic_error& o) noexcept : exception(o), _M_msg(o._M_msg) {}
    logic_error::~logic_error() noexcept {}
    const char* logic_error::what() const noexcept { return _M_msg._M_p; }
    runtime_error::runtime_error(const char* s) : _M_msg(s, strlen(s)) {}
    runtime_error::runtime_error(const string& s) : _M_msg(s) {}
    runtime_error::runtime_error(const runtime_error& o) noexcept : exception(o), _M_msg(o._M_msg) {}
    runtime_error::~runtime_error() noexcept {}
    const char* runtime_error::what() const noexcept { return _M_msg._M_p; }
    invalid_argument::invalid_argument(const char* s) : logic_error(s) {}
    invalid_argument::invalid_argument(const string& s) : logic_error(s) {}
    invalid_argument::~invalid_argument() noexcept {}
    domain_error::domain_error(const char* s) : logic_error(s) {}
    domain_error::domain_error(const string& s) : logic_error(s) {}
    domain_error::~domain_error() noexcept {}
    out_of_range::out_of_range(const char* s) : logic_error(s) {}
    out_of_range::out_of_range(const string& s) : logic_error(s) {}
    out_of_range::~out_of_range() noexcept {}
    length_error::length_error(const char* s) : logic_error(s) {}
    length_error::length_error(const string& s) : logic_error(s) {}
    length_error::~length_error() noexcept {}
    range_error::range_error(const char* s) : runtime_error(s) {}
    range_error::range_error(const string& s) : runtime_error(s) {}
    range_error::~range_error() noexcept {}
    overflow_error::overflow_error(const char* s) : runtime_error(s) {}
    overflow_error::overflow_error(const string& s) : runtime_error(s) {}
    overflow_error::~overflow_error() noexcept {}
    underflow_error::underflow_error(const char* s) : runtime_error(s) {}
    underflow_error::underflow_error(const string& s) : runtime_error(s) {}
    underflow_error::~underflow_error() noexcept {}

    void __throw_bad_alloc() { throw bad_alloc(); }
    void __throw_bad_array_new_length() { throw bad_array_new_length(); }
    void __throw_bad_cast() { throw bad_cast(); }
    void __throw_bad_function_call() { throw bad_function_call(); }
    void __throw_logic_error(const char* s) { throw logic_error(s); }
    void __throw_length_error(const char* s) { throw length_error(s); }
    void __throw_out_of_range(const char* s) { throw out_of_range(s); }
    void __throw_invalid_argument(const char* s) { throw invalid_argument(s); }
    void __throw_runtime_error(const char* s) { throw runtime_error(s); }
    void __throw_out_of_range_fmt(const char* s, ...) { throw out_of_range(s); }

    pmr::memory_resource::~memory_resource() = default;
    namespace pmr
    {
        // the global memory resources
        struct sx_new_delete : memory_resource
        {
            void* do_allocate(size_t n, size_t) override { return ::operator new(n); }
            void do_deallocate(void* p, size_t, size_t) override { ::operator delete(p); }
            bool do_is_equal(const memory_resource& o) const noexcept override { return this == &o; }
        };
        struct sx_null : sx_new_delete
        {
            void* do_allocate(size_t, size_t) override { throw bad_alloc(); }
            void do_deallocate(void*, size_t, size_t) override {}
        };
        memory_resource* new_delete_resource() noexcept
        {
            static sx_new_delete r;
            return &r;
        }
        memory_resource* null_memory_resource() noexcept
        {
            static sx_null r;
            return &r;
        }
        static memory_resource* sx_default = nullptr;
        memory_resource* get_default_resource() noexcept { return sx_default ? sx_default : new_delete_resource(); }
        memory_resource* set_default_resource(memory_resource* r) noexcept
        {
            memory_resource* old = get_default_resource();
            sx_default = r;
            return old;
        }
    }

    // nodes of std::list
    namespace __detail
    {
        void _List_node_base::_M_hook(_List_node_base* const p) noexcept
        {
            _M_next = p;
            _M_prev = p->_M_prev;
            p->_M_prev->_M_next = this;
            p->_M_prev = this;
        }
        void _List_node_base::_M_unhook() noexcept
        {
            _M_prev->_M_next = _M_next;
            _M_next->_M_prev = _M_prev;
        }
        void _List_node_base::_M_transfer(_List_node_base* const f, _List_node_base* const l) noexcept
        {
            if (this == l) return;
            l->_M_prev->_M_next = this;
            f->_M_prev->_M_next = l;
            _M_prev->_M_next = f;
            _List_node_base* const t = _M_prev;
            _M_prev = l->_M_prev;
            l->_M_prev = f->_M_prev;
            f->_M_prev = t;
        }
        void _List_node_base::_M_reverse() noexcept
        {
            _List_node_base* t = this;
            do
            {
                std::swap(t->_M_next, t->_M_prev);
                t = t->_M_prev;
            } while (t != this);
        }
        void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept
        {
            const bool ex = x._M_next == &x, ey = y._M_next == &y;
            _List_node_base a = x, b = y;
            auto put = [](_List_node_base& to, const _List_node_base& from, bool empty)
            {
                if (empty)
                {
                    to._M_next = to._M_prev = &to;
                    return;
                }
                to = from;
                to._M_next->_M_prev = to._M_prev->_M_next = &to;
            };
            put(x, b, ey);
            put(y, a, ex);
        }
    }
    // a constant hash: hash tables degenerate to lists, which changes no observable behaviour but the
    // iteration order (unspecified by the standard; sparrow exposes none)
    size_t _Hash_bytes(const void*, size_t, size_t) { return 0; }
    namespace __detail
    {
        size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const
        {
            size_t b = n < 13 ? 13 : n;
            _M_next_resize = b;
            return b;
        }
        pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t bkt, size_t elt, size_t ins) const
        {
            if (elt + ins <= _M_next_resize && bkt > 1) return {false, 0};
            size_t b = 2 * (elt + ins);
            b = b < 13 ? 13 : b;
            _M_next_resize = b;
            return {true, b};
        }
    }

    // red-black trees: kept as plain binary search trees (no rebalancing)
    static _Rb_tree_node_base* rb_inc(_Rb_tree_node_base* x)
    {
        if (x->_M_right)
        {
            x = x->_M_right;
            while (x->_M_left) x = x->_M_left;
            return x;
        }
        _Rb_tree_node_base* y = x->_M_parent;
        while (x == y->_M_right)
        {
            x = y;
            y = y->_M_parent;
        }
        return x->_M_right != y ? y : x;
    }
    static _Rb_tree_node_base* rb_dec(_Rb_tree_node_base* x)
    {
        if (x->_M_color == _S_red && x->_M_parent && x->_M_parent->_M_parent == x) return x->_M_right;
        if (x->_M_left)
        {
            x = x->_M_left;
            while (x->_M_right) x = x->_M_right;
            return x;
        }
        _Rb_tree_node_base* y = x->_M_parent;
        while (x == y->_M_left)
        {
            x = y;
            y = y->_M_parent;
        }
        return y;
    }
    _Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() { return rb_inc(x); }
    const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return rb_inc(const_cast<_Rb_tree_node_base*>(x)); }
    _Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() { return rb_dec(x); }
    const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return rb_dec(const_cast<_Rb_tree_node_base*>(x)); }
    void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) throw()
    {
        x->_M_parent = p;
        x->_M_left = x->_M_right = nullptr;
        x->_M_color = _S_black;
        if (left)
        {
            p->_M_left = x;
            if (p == &h)
            {
                h._M_parent = x;
                h._M_right = x;
            }
            else if (p == h._M_left) h._M_left = x;
        }
        else
        {
            p->_M_right = x;
            if (p == h._M_right) h._M_right = x;
        }
    }
    _Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) throw()
    {
        auto replace = [&](_Rb_tree_node_base* a, _Rb_tree_node_base* b)
        {
            if (h._M_parent == a) h._M_parent = b;
            else if (a->_M_parent->_M_left == a) a->_M_parent->_M_left = b;
            else a->_M_parent->_M_right = b;
            if (b) b->_M_parent = a->_M_parent;
        };
        if (!z->_M_left) replace(z, z->_M_right);
        else if (!z->_M_right) replace(z, z->_M_left);
        else
        {
            _Rb_tree_node_base* y = z->_M_right;
            while (y->_M_left) y = y->_M_left;
            if (y->_M_parent != z)
            {
                replace(y, y->_M_right);
                y->_M_right = z->_M_right;
                y->_M_right->_M_parent = y;
            }
            replace(z, y);
            y->_M_left = z->_M_left;
            y->_M_left->_M_parent = y;
        }
        _Rb_tree_node_base* r = h._M_parent;
        if (!r) h._M_left = h._M_right = &h;
        else
        {
            _Rb_tree_node_base* m = r;
            while (m->_M_left) m = m->_M_left;
            h._M_left = m;
            m = r;
            while (m->_M_right) m = m->_M_right;
            h._M_right = m;
        }
        return z;
    }
    template void basic_string<char>::_M_replace_cold(char*, size_t, const char*, const size_t, const size_t);
}

// ---------------------------------------------------------------- streams used only to compose messages
namespace
{
    // A stream is what the inline functions of the library read of it: tables with the place of the virtual
    // base, and a string buffer whose text is the string it owns. The numbers are offsets in the library's
    // classes, and those of the string buffer are relative to it.
    struct sx_tables { long at_base; long to_top; long type; long first; };
    const sx_tables sx_oss_vt = {112, 0, 0, 0}, sx_ss_vt = {128, 0, 0, 0}, sx_iss_vt = {120, 0, 0, 0}, sx_ss_os_vt = {112, -16, 0, 0}, sx_ios_vt = {0, 0, 0, 0};
    const size_t ss_os = 16, is_buf = 16, os_buf = 8, buf_out = 32, buf_string = 72;
    template <class T>
    T& sx_at(void* o, size_t k) { return *reinterpret_cast<T*>(static_cast<char*>(o) + k); }
    void sx_set(void* b, size_t at)
    {
        std::string& t = sx_at<std::string>(b, buf_string);
        sx_at<char*>(b, 24) = t.data() + t.size();
        sx_at<char*>(b, buf_out) = t.data();
        sx_at<char*>(b, buf_out + 8) = t.data() + at;
        sx_at<char*>(b, buf_out + 16) = t.data() + t.size();
    }
    void* sx_put(void* os, const char* p, size_t n)
    {
        void* const b = static_cast<char*>(os) + os_buf;
        std::string& t = sx_at<std::string>(b, buf_string);
        const size_t at = static_cast<size_t>(sx_at<char*>(b, buf_out + 8) - sx_at<char*>(b, buf_out));
        t.replace(at, n < t.size() - at ? n : t.size() - at, p, n);
        sx_set(b, at + n);
        return os;
    }
    void sx_open(void* os) { ::new (&sx_at<std::string>(os, os_buf + buf_string)) std::string(); }
    void sx_close(void* os) { sx_at<std::string>(os, os_buf + buf_string).~basic_string(); }
    // the reading side: the position is kept as an index where the library keeps a pointer
    struct sx_reader
    {
        static const int ended = 2, failed = 4;
        const std::string& text;
        size_t& at;
        int& state;
        explicit sx_reader(void* is)
            : sx_reader(is, static_cast<size_t>((*static_cast<long**>(is))[-3]))
        {
        }
        sx_reader(void* is, size_t base)
            : text(sx_at<std::string>(is, (base == 120 ? is_buf : ss_os + os_buf) + buf_string))
            , at(sx_at<size_t>(is, (base == 120 ? is_buf : ss_os + os_buf) + 16))
            , state(sx_at<int>(is, base + 32))
        {
        }
        bool more() const { return at < text.size(); }
        char next() const { return text[at]; }
        char take() { return text[at++]; }
    };
    const std::string& sx_text(void* os) { return sx_at<std::string>(os, os_buf + buf_string); }
}
extern "C"
{
    extern const void* const sx_oss_vtt[4] __asm__("_ZTTNSt7__cxx1119basic_ostringstreamIcSt11char_traitsIcESaIcEEE");
    const void* const sx_oss_vtt[4] = {&sx_oss_vt.first, &sx_oss_vt.first, &sx_ios_vt.first, &sx_ios_vt.first};
    extern const void* const sx_ss_vtt[10] __asm__("_ZTTNSt7__cxx1118basic_stringstreamIcSt11char_traitsIcESaIcEEE");
    const void* const sx_ss_vtt[10] = {&sx_ss_vt.first, &sx_ss_vt.first, &sx_ss_vt.first, &sx_ios_vt.first, &sx_ss_os_vt.first,
                                       &sx_ss_os_vt.first, &sx_ss_os_vt.first, &sx_ios_vt.first, &sx_ios_vt.first, &sx_ss_os_vt.first};
    extern const void* const sx_iss_vtt[4] __asm__("_ZTTNSt7__cxx1119basic_istringstreamIcSt11char_traitsIcESaIcEEE");
    const void* const sx_iss_vtt[4] = {&sx_iss_vt.first, &sx_iss_vt.first, &sx_ios_vt.first, &sx_ios_vt.first};
    void sx_locale_d1(void*) __asm__("_ZNSt6localeD1Ev");
    void sx_locale_d1(void*) {}
    void sx_ios_d2(void*) __asm__("_ZNSt8ios_baseD2Ev");
    void sx_ios_d2(void*) {}
}
std::string sx_dec(unsigned long v, bool neg);
std::string sx_sdec(long v);
extern "C"
{
    void sx_oss_c1(void* o) __asm__("_ZNSt7__cxx1119basic_ostringstreamIcSt11char_traitsIcESaIcEEC1Ev");
    void sx_oss_c1(void* o)
    {
        memset(o, 0, 376);
        sx_at<const void*>(o, 0) = &sx_oss_vt.first;
        sx_at<const void*>(o, 112) = &sx_ios_vt.first;
        sx_open(o);
    }
    void sx_oss_d1(void* o) __asm__("_ZNSt7__cxx1119basic_ostringstreamIcSt11char_traitsIcESaIcEED1Ev");
    void sx_oss_d1(void* o) { sx_close(o); }
    void sx_ss_c1(void* o) __asm__("_ZNSt7__cxx1118basic_stringstreamIcSt11char_traitsIcESaIcEEC1Ev");
    void sx_ss_c1(void* o)
    {
        memset(o, 0, 392);
        sx_at<const void*>(o, 0) = &sx_ss_vt.first;
        sx_at<const void*>(o, ss_os) = &sx_ss_os_vt.first;
        sx_at<const void*>(o, 128) = &sx_ios_vt.first;
        sx_open(static_cast<char*>(o) + ss_os);
    }
    void sx_ss_d1(void* o) __asm__("_ZNSt7__cxx1118basic_stringstreamIcSt11char_traitsIcESaIcEED1Ev");
    void sx_ss_d1(void* o) { sx_close(static_cast<char*>(o) + ss_os); }
    void sx_ss_c1s(void* o, const std::string& t, int) __asm__("_ZNSt7__cxx1118basic_stringstreamIcSt11char_traitsIcESaIcEEC1ERKNS_12basic_stringIcS2_S3_EESt13_Ios_Openmode");
    void sx_ss_c1s(void* o, const std::string& t, int)
    {
        sx_ss_c1(o);
        sx_at<std::string>(o, ss_os + os_buf + buf_string) = t;
        sx_set(static_cast<char*>(o) + ss_os + os_buf, 0);
    }
    void sx_iss_c1s(void* o, const std::string& t, int) __asm__("_ZNSt7__cxx1119basic_istringstreamIcSt11char_traitsIcESaIcEEC1ERKNS_12basic_stringIcS2_S3_EESt13_Ios_Openmode");
    void sx_iss_c1s(void* o, const std::string& t, int)
    {
        memset(o, 0, 384);
        sx_at<const void*>(o, 0) = &sx_iss_vt.first;
        sx_at<const void*>(o, 120) = &sx_ios_vt.first;
        ::new (&sx_at<std::string>(o, is_buf + buf_string)) std::string(t);
    }
    void sx_ss_c1m(void* o, std::string&& t, int) __asm__("_ZNSt7__cxx1118basic_stringstreamIcSt11char_traitsIcESaIcEEC1EONS_12basic_stringIcS2_S3_EESt13_Ios_Openmode");
    void sx_ss_c1m(void* o, std::string&& t, int) { sx_ss_c1s(o, t, 0); }
    void sx_iss_c1m(void* o, std::string&& t, int) __asm__("_ZNSt7__cxx1119basic_istringstreamIcSt11char_traitsIcESaIcEEC1EONS_12basic_stringIcS2_S3_EESt13_Ios_Openmode");
    void sx_iss_c1m(void* o, std::string&& t, int) { sx_iss_c1s(o, t, 0); }
    void sx_iss_d1(void* o) __asm__("_ZNSt7__cxx1119basic_istringstreamIcSt11char_traitsIcESaIcEED1Ev");
    void sx_iss_d1(void* o) { sx_at<std::string>(o, is_buf + buf_string).~basic_string(); }
    void* sx_getline(void* is, std::string& line, char end) __asm__("_ZSt7getlineIcSt11char_traitsIcESaIcEERSt13basic_istreamIT_T0_ES7_RNSt7__cxx1112basic_stringIS4_S5_T1_EES4_");
    void* sx_getline(void* is, std::string& line, char end)
    {
        sx_reader r(is);
        if (r.state != 0)
        {
            r.state |= sx_reader::failed;
            return is;
        }
        line.clear();
        bool any = false;
        while (r.more())
        {
            const char c = r.take();
            any = true;
            if (c == end) return is;
            line.push_back(c);
        }
        r.state |= any ? sx_reader::ended : sx_reader::ended | sx_reader::failed;
        return is;
    }
    void* sx_is_int(void* is, int& v) __asm__("_ZNSirsERi");
    void* sx_is_int(void* is, int& v)
    {
        sx_reader r(is);
        if (r.state != 0)
        {
            r.state |= sx_reader::failed;
            return is;
        }
        while (r.more() && (r.next() == ' ' || (r.next() >= 9 && r.next() <= 13))) r.take();
        bool neg = false, any = false;
        if (r.more() && (r.next() == '-' || r.next() == '+')) neg = r.take() == '-';
        long n = 0;
        while (r.more() && r.next() >= '0' && r.next() <= '9')
        {
            n = n > 0xffffffffL ? n : n * 10 + (r.take() - '0');
            any = true;
        }
        if (neg) n = -n;
        if (!r.more()) r.state |= sx_reader::ended;
        if (!any || n > 0x7fffffffL || n < -0x80000000L) r.state |= sx_reader::failed;
        v = !any ? 0 : n > 0x7fffffffL ? 0x7fffffff : n < -0x80000000L ? int(-0x80000000L) : int(n);
        return is;
    }
    void* sx_os_ins(void* o, const char* p, long n) __asm__("_ZSt16__ostream_insertIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_PKS3_l");
    void* sx_os_ins(void* o, const char* p, long n) { return sx_put(o, p, static_cast<size_t>(n)); }
    void* sx_os_put(void* o, char c) __asm__("_ZNSo3putEc");
    void* sx_os_put(void* o, char c) { return sx_put(o, &c, 1); }
    void* sx_os_flush(void* o) __asm__("_ZNSo5flushEv");
    void* sx_os_flush(void* o) { return o; }
    void* sx_os_cstr(void* o, const char* p) __asm__("_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_PKc");
    void* sx_os_cstr(void* o, const char* p) { return sx_put(o, p, strlen(p)); }
    void* sx_os_ul(void* o, unsigned long v) __asm__("_ZNSo9_M_insertImEERSoT_");
    void* sx_os_ul(void* o, unsigned long v) { std::string t = sx_dec(v, false); return sx_put(o, t.data(), t.size()); }
    void* sx_os_uy(void* o, unsigned long v) __asm__("_ZNSo9_M_insertIyEERSoT_");
    void* sx_os_uy(void* o, unsigned long v) { return sx_os_ul(o, v); }
    void* sx_os_sl(void* o, long v) __asm__("_ZNSo9_M_insertIlEERSoT_");
    void* sx_os_sl(void* o, long v) { std::string t = sx_sdec(v); return sx_put(o, t.data(), t.size()); }
    void* sx_os_sx(void* o, long v) __asm__("_ZNSo9_M_insertIxEERSoT_");
    void* sx_os_sx(void* o, long v) { return sx_os_sl(o, v); }
    void* sx_os_i(void* o, int v) __asm__("_ZNSolsEi");
    void* sx_os_i(void* o, int v) { return sx_os_sl(o, v); }
    void* sx_os_s(void* o, short v) __asm__("_ZNSolsEs");
    void* sx_os_s(void* o, short v) { return sx_os_sl(o, v); }
    void* sx_os_b(void* o, bool v) __asm__("_ZNSo9_M_insertIbEERSoT_");
    void* sx_os_b(void* o, bool v) { return sx_os_sl(o, v); }
    // floating point numbers only appear in messages
    void* sx_os_d(void* o, double) __asm__("_ZNSo9_M_insertIdEERSoT_");
    void* sx_os_d(void* o, double) { return sx_put(o, "number", 6); }
    void* sx_os_p(void* o, const void*) __asm__("_ZNSo9_M_insertIPKvEERSoT_");
    void* sx_os_p(void* o, const void*) { return sx_put(o, "address", 7); }
    void sx_ios_init() __asm__("_ZSt21ios_base_library_initv");
    void sx_ios_init() {}
    int pthread_mutex_lock(pthread_mutex_t*) noexcept { return 0; }
    int pthread_mutex_trylock(pthread_mutex_t*) noexcept { return 0; }
    int pthread_mutex_unlock(pthread_mutex_t*) noexcept { return 0; }
    int pthread_once(pthread_once_t* o, void (*f)())
    {
        if (*o == 0)
        {
            f();
            *o = 2;
        }
        return 0;
    }
}
std::string sx_oss_str(void* o) __asm__("_ZNKRSt7__cxx1119basic_ostringstreamIcSt11char_traitsIcESaIcEE3strEv");
std::string sx_oss_str(void* o) { return sx_text(o); }
std::string sx_oss_str_old(void* o) __asm__("_ZNKSt7__cxx1119basic_ostringstreamIcSt11char_traitsIcESaIcEE3strEv");
std::string sx_oss_str_old(void* o) { return sx_text(o); }
std::string sx_oss_str_move(void* o) __asm__("_ZNOSt7__cxx1119basic_ostringstreamIcSt11char_traitsIcESaIcEE3strEv");
std::string sx_oss_str_move(void* o) { return sx_text(o); }
std::string sx_ss_str(void* o) __asm__("_ZNKRSt7__cxx1118basic_stringstreamIcSt11char_traitsIcESaIcEE3strEv");
std::string sx_ss_str(void* o) { return sx_text(static_cast<char*>(o) + ss_os); }
std::string sx_ss_str_old(void* o) __asm__("_ZNKSt7__cxx1118basic_stringstreamIcSt11char_traitsIcESaIcEE3strEv");
std::string sx_ss_str_old(void* o) { return sx_text(static_cast<char*>(o) + ss_os); }

// std::to_string of a symbolic number: sparrow only composes messages of such numbers
std::string sx_dec(unsigned long v, bool neg)
{
    if (!__sx_is_const(v)) return std::string("composed message");
    char b[24];
    unsigned k = 24;
    do { b[--k] = char('0' + v % 10); v /= 10; } while (v);
    if (neg) b[--k] = '-';
    return std::string(b + k, 24 - k);
}
std::string sx_sdec(long v) { return __sx_is_const(v) && v < 0 ? sx_dec(0 - (unsigned long) v, true) : sx_dec(v, false); }
std::string sx_to_string_m(unsigned long v) __asm__("_ZNSt7__cxx119to_stringEm");
std::string sx_to_string_m(unsigned long v) { return sx_dec(v, false); }
std::string sx_to_string_y(unsigned long long v) __asm__("_ZNSt7__cxx119to_stringEy");
std::string sx_to_string_y(unsigned long long v) { return sx_dec(v, false); }
std::string sx_to_string_j(unsigned v) __asm__("_ZNSt7__cxx119to_stringEj");
std::string sx_to_string_j(unsigned v) { return sx_dec(v, false); }
std::string sx_to_string_l(long v) __asm__("_ZNSt7__cxx119to_stringEl");
std::string sx_to_string_l(long v) { return sx_sdec(v); }
std::string sx_to_string_x(long long v) __asm__("_ZNSt7__cxx119to_stringEx");
std::string sx_to_string_x(long long v) { return sx_sdec(v); }
std::string sx_to_string_i(int v) __asm__("_ZNSt7__cxx119to_stringEi");
std::string sx_to_string_i(int v) { return sx_sdec(v); }

// ---------------------------------------------------------------- libc
extern "C"
{
    size_t strlen(const char* s)
    {
        size_t n = 0;
        while (s[n]) ++n;
        return n;
    }
    char* sx_strchr(const char* s, int c) __asm__("strchr");
    char* sx_strchr(const char* s, int c)
    {
        for (;; ++s)
        {
            if (*s == (char) c) return const_cast<char*>(s);
            if (!*s) return nullptr;
        }
    }
    int strcmp(const char* a, const char* b)
    {
        while (*a && *a == *b) { ++a; ++b; }
        return (unsigned char) *a - (unsigned char) *b;
    }
    int strncmp(const char* a, const char* b, size_t n)
    {
        for (; n; ++a, ++b, --n)
            if (*a != *b || !*a) return (unsigned char) *a - (unsigned char) *b;
        return 0;
    }
    char* strcpy(char* d, const char* s)
    {
        char* r = d;
        while ((*d++ = *s++)) {}
        return r;
    }
    int toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
    int tolower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
    static int sx_errno;
    int* __errno_location() { return &sx_errno; }

    static unsigned long long sx_strto(const char* s, char** e, int base, bool sgn)
    {
        const char* p = s;
        while (*p == ' ' || (*p >= 9 && *p <= 13)) ++p;
        bool neg = false;
        if (*p == '+' || *p == '-') neg = *p++ == '-';
        if (base == 0) base = 10;
        unsigned long long v = 0;
        bool any = false, over = false;
        while (*p >= '0' && *p <= '9')
        {
            unsigned d = *p - '0';
            if (v > (~0ull - d) / base) over = true;
            v = v * base + d;
            any = true;
            ++p;
        }
        if (e) *e = const_cast<char*>(any ? p : s);
        if (sgn)
        {
            if (over || v > (neg ? 1ull << 63 : (1ull << 63) - 1))
            {
                sx_errno = 34;
                return neg ? 1ull << 63 : (1ull << 63) - 1;
            }
        }
        else if (over)
        {
            sx_errno = 34;
            return ~0ull;
        }
        return neg ? 0 - v : v;
    }
    long __isoc23_strtol(const char* s, char** e, int b) { return (long) sx_strto(s, e, b, true); }
    long long __isoc23_strtoll(const char* s, char** e, int b) { return (long long) sx_strto(s, e, b, true); }
    unsigned long __isoc23_strtoul(const char* s, char** e, int b) { return sx_strto(s, e, b, false); }
    unsigned long long __isoc23_strtoull(const char* s, char** e, int b) { return sx_strto(s, e, b, false); }
    int sx_atoi(const char* s) __asm__("atoi");
    int sx_atoi(const char* s) { return (int) sx_strto(s, nullptr, 10, true); }

    char __libc_single_threaded = 1;
    void* __dso_handle = nullptr;
    void* stderr_ __asm__("stderr") = nullptr;
}
