// Native replay driver: runs one harness entry with recorded inputs against the natively compiled tree.
//   replay ENTRY INPUTS [runs]
// INPUTS: lines "name width value".  Exit: 0 finished, 70 assertion/contract/other failure, 71 inputs do not
// match the program (diverged), 72 assumption violated, 73 leak; sanitizer aborts have their own codes.
#include "sx.hpp"
#include <cstdio>
#include <cstdlib>
#include <exception>
#include <map>
#include <sanitizer/allocator_interface.h>
#include <sanitizer/asan_interface.h>
#include <string>
#include <typeinfo>
#include <unordered_set>
#include <vector>

namespace
{
    std::map<std::string, void (*)()>& entries()
    {
        static std::map<std::string, void (*)()> m;
        return m;
    }
    struct In { std::string name; unsigned w; uint64_t v; };
    std::vector<In> ins;
    size_t pos = 0;
    bool quiet = false, ignore_leaks = false;
    // open-addressing table of live blocks, allocated once
    constexpr size_t N = 1 << 20;
    const volatile void** live = nullptr;
    size_t nlive = 0;
    bool tracking = false;
    void on_malloc(const volatile void* p, size_t)
    {
        if (!tracking || !p) return;
        size_t h = (reinterpret_cast<uintptr_t>(p) >> 4) * 0x9E3779B97F4A7C15ull >> 44;
        while (live[h & (N - 1)] && live[h & (N - 1)] != (void*) 1) ++h;
        live[h & (N - 1)] = p;
        ++nlive;
    }
    void on_free(const volatile void* p)
    {
        if (!tracking || !p) return;
        size_t h = (reinterpret_cast<uintptr_t>(p) >> 4) * 0x9E3779B97F4A7C15ull >> 44;
        while (live[h & (N - 1)])
        {
            if (live[h & (N - 1)] == p)
            {
                live[h & (N - 1)] = (void*) 1;
                --nlive;
                return;
            }
            ++h;
        }
    }
    uint64_t next(const char* name, unsigned w)
    {
        if (pos >= ins.size() || ins[pos].name != name || (w && ins[pos].w != w))
        {
            printf("SX diverged: wanted %s:%u\n", name, w);
            fflush(stdout);
            _Exit(71);
        }
        return ins[pos++].v;
    }
    struct end_run {};
}
namespace sx { reg::reg(const char* n, void (*f)()) { entries()[n] = f; } }
extern "C"
{
    uint64_t __sx_sym(const char* name, unsigned w) { return next(name, w); }
    uint64_t __sx_choose(const char* name, uint64_t, uint64_t) { return next(name, 0); }
    uint64_t __sx_concretize(uint64_t v) { return v; }
    void __sx_assume(bool c)
    {
        if (!c)
        {
            puts("SX assumption does not hold");
            fflush(stdout);
            _Exit(72);
        }
    }
    void __sx_assert(bool c, const char* label)
    {
        if (!c)
        {
            printf("SX assertion failed: %s\n", label);
            fflush(stdout);
            _Exit(70);
        }
    }
    void __sx_contract(const char* file, int line, const char* msg)
    {
        printf("SX contract failed: %s (%s:%d)\n", msg, file, line);
        fflush(stdout);
        _Exit(70);
    }
    void __sx_fail(const char* k, const char* msg)
    {
        printf("SX failed: %s %s\n", k, msg);
        fflush(stdout);
        _Exit(70);
    }
    void __sx_reach(const char*) {}
    void __sx_observe(uint64_t v)
    {
        if (!quiet) printf("SX observed %llu\n", (unsigned long long) v);
    }
    void __sx_ignore_leaks() { ignore_leaks = true; }
    uint64_t __sx_live() { return nlive; }
    int __sx_symbolic() { return 0; }
}

static bool load(const char* file)
{
    ins.clear();
    pos = 0;
    FILE* f = fopen(file, "r");
    if (!f) return false;
    char nm[256];
    unsigned w;
    unsigned long long v;
    while (fscanf(f, "%255s %u %llu", nm, &w, &v) == 3) ins.push_back({nm, w, v});
    fclose(f);
    return true;
}

int main(int argc, char** argv)
{
    if (argc < 3) return 2;
    auto it = entries().find(argv[1]);
    if (it == entries().end() || !load(argv[2]))
    {
        puts("SX no such entry or file");
        return 2;
    }
    live = static_cast<const volatile void**>(calloc(N, sizeof(void*)));
    __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free);
    setvbuf(stdout, nullptr, _IOFBF, 1 << 16);
    for (int run = 0; run < 2; ++run)
    {
        pos = 0;
        quiet = run > 0;
        tracking = true;
        size_t before = nlive;
        try
        {
            it->second();
        }
        catch (const std::exception& e)
        {
            printf("SX uncaught exception %s: %s\n", typeid(e).name(), e.what());
            fflush(stdout);
            _Exit(70);
        }
        catch (...)
        {
            puts("SX uncaught exception");
            fflush(stdout);
            _Exit(70);
        }
        tracking = false;
        if (run == 1 && !ignore_leaks && nlive > before)
        {
            printf("SX leak: %zu blocks\n", nlive - before);
            fflush(stdout);
            _Exit(73);
        }
        // the second run exists to tell leaks from lazily created statics: it must not allocate more
        if (run == 0 && nlive == before) break;
    }
    puts("SX done");
    fflush(stdout);
    _Exit(0);
}
