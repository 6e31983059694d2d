// starpu.h -- a stand-in for the part of StarPU's API that <T>LAPACK's tiled plugin uses, with an explicit-state scheduler.
//
// Tasks are recorded at submission.  Their dependencies follow StarPU's sequential-consistency rule: two tasks whose
// declared accesses touch a common memory location, at least one of them writing, keep their submission order; nothing
// else is ordered.  A task body never sees the application's memory: every declared buffer is copied into a private
// packed buffer between guard zones (R: copied in; RW: copied in and out; W: starts as NaN, copied out), so that an
// access that was not declared is either lost, poisoned or reported.
#pragma once
#include <stdlib.h>
#include <cassert>
#include <cstdarg>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <tuple>
#include <type_traits>
#include <iostream>
#include <typeinfo>
#include <vector>

#define STARPU_ATTRIBUTE_UNUSED __attribute__((unused))
#define STARPU_MAIN_RAM 0
#define STARPU_CPU 1u
#define STARPU_CUDA 2u
#define STARPU_CUDA_ASYNC 1
#define STARPU_NMAXBUFS 8
#define STARPU_MAXIMPLEMENTATIONS 4
#define STARPU_CHECK_RETURN_VALUE(err, msg, ...) do { if ((err) != 0) spu::violation("submit", std::string("error return from ") + msg); } while (0)

enum starpu_data_access_mode { STARPU_NONE = 0, STARPU_R = 1, STARPU_W = 2, STARPU_RW = 3, STARPU_SCRATCH = 4, STARPU_NOFOOTPRINT = 8 };

struct _starpu_data_state;
typedef struct _starpu_data_state* starpu_data_handle_t;
enum { SPU_MATRIX = 77, SPU_VARIABLE = 78 };

struct starpu_matrix_interface {
    int id;
    uintptr_t ptr;
    uintptr_t dev_handle;
    size_t offset;
    uint32_t nx, ny, ld;
    size_t elemsize, allocsize;
};
struct starpu_variable_interface {
    int id;
    uintptr_t ptr;
    uintptr_t dev_handle;
    size_t offset;
    size_t elemsize;
};
struct starpu_data_interface_ops { int kind; };
inline starpu_data_interface_ops spu_variable_ops = {SPU_VARIABLE};

struct starpu_data_filter {
    void (*filter_func)(void*, void*, struct starpu_data_filter*, unsigned, unsigned) = nullptr;
    unsigned nchildren = 0;
    unsigned (*get_nchildren)(struct starpu_data_filter*, starpu_data_handle_t) = nullptr;
    struct starpu_data_interface_ops* (*get_child_ops)(struct starpu_data_filter*, unsigned) = nullptr;
    unsigned filter_arg = 0;
    void* filter_arg_ptr = nullptr;
};
typedef void (*starpu_cpu_func_t)(void**, void*);
struct starpu_codelet {
    uint32_t where;
    starpu_cpu_func_t cpu_funcs[STARPU_MAXIMPLEMENTATIONS];
    starpu_cpu_func_t cuda_funcs[STARPU_MAXIMPLEMENTATIONS];
    char cuda_flags[STARPU_MAXIMPLEMENTATIONS];
    int nbuffers;
    enum starpu_data_access_mode modes[STARPU_NMAXBUFS];
    const char* name;
    int checked;
};
struct starpu_task {
    struct starpu_codelet* cl = nullptr;
    starpu_data_handle_t handles[STARPU_NMAXBUFS] = {};
    void* cl_arg = nullptr;
    size_t cl_arg_size = 0;
    void (*callback_func)(void*) = nullptr;
    void* callback_arg = nullptr;
    double flops = 0;
};

#define STARPU_MATRIX_GET_NX(i) (((struct starpu_matrix_interface*)(i))->nx)
#define STARPU_MATRIX_GET_NY(i) (((struct starpu_matrix_interface*)(i))->ny)
#define STARPU_MATRIX_GET_LD(i) (((struct starpu_matrix_interface*)(i))->ld)
#define STARPU_MATRIX_GET_PTR(i) (((struct starpu_matrix_interface*)(i))->ptr)
#define STARPU_VARIABLE_GET_PTR(i) (((struct starpu_variable_interface*)(i))->ptr)
#define STARPU_VARIABLE_GET_ELEMSIZE(i) (((struct starpu_variable_interface*)(i))->elemsize)

struct _starpu_data_state {
    int kind = SPU_MATRIX;
    starpu_matrix_interface mi = {};
    starpu_variable_interface vi = {};
    _starpu_data_state* father = nullptr;
    _starpu_data_state* root = nullptr;
    std::vector<_starpu_data_state*> kids;  // static partition (map_filters)
    int plan = 0;                            // >0: belongs to a partition plan
    bool cleaned = false;
};

namespace spu {

struct Violation { std::string key, msg; };
/// set by the harness: must not return
inline void (*onViolation)(const char* key, const char* msg) = nullptr;
[[noreturn]] inline void violation(const char* key, const std::string& msg)
{
    if (onViolation) onViolation(key, msg.c_str());
    fprintf(stderr, "%s: %s\n", key, msg.c_str());
    abort();
}

struct Region {  // column-major block of memory
    uintptr_t p;
    uint32_t m, n, ld;
    size_t es;
};
inline bool overlap(const Region& a, const Region& b)
{
    if (a.m == 0 || a.n == 0 || b.m == 0 || b.n == 0) return false;
    for (uint32_t j = 0; j < a.n; ++j) {
        uintptr_t a0 = a.p + (uintptr_t)j * a.ld * a.es, a1 = a0 + a.m * a.es;
        for (uint32_t k = 0; k < b.n; ++k) {
            uintptr_t b0 = b.p + (uintptr_t)k * b.ld * b.es, b1 = b0 + b.m * b.es;
            if (a0 < b1 && b0 < a1) return true;
        }
    }
    return false;
}
struct Buf {
    int kind, mode, plan;
    Region r;
    _starpu_data_state *root, *father;
};
struct Task {
    const starpu_codelet* cl;
    std::vector<Buf> b;
    void* arg;
    std::vector<unsigned char> snap;
    void (*cb)(void*);
    void* cbarg;
    std::set<int> dep;  // indices (in the global submission order) of tasks it must follow
    bool done = false;
};
struct RootBuf { uintptr_t p; size_t bytes; };

enum Policy { EAGER, LAZY, LAZY_REV };

struct Sim {
    std::deque<Task> tasks;           // in submission order
    std::vector<_starpu_data_state*> handles;
    std::vector<_starpu_data_state*> roots;
    int plans = 0, acquired = 0, executed = 0;
    Policy policy = LAZY;
    std::vector<int> delay;           // with EAGER: tasks (by submission index) that run only when something needs them
    uint64_t nstates = 0, ntrans = 0;
    bool finished() const
    {
        for (auto& t : tasks) if (!t.done) return false;
        return true;
    }
    void reset()
    {
        for (auto* h : handles) delete h;
        handles.clear();
        roots.clear();
        for (auto& t : tasks) if (!t.done && t.cb) t.cb(t.cbarg);
        tasks.clear();
        plans = acquired = executed = 0;
        policy = LAZY;
        delay.clear();
    }
    _starpu_data_state* add()
    {
        auto* h = new _starpu_data_state;
        handles.push_back(h);
        return h;
    }
    static Region reg(const _starpu_data_state* h)
    {
        if (h->kind == SPU_MATRIX) return {h->mi.ptr, h->mi.nx, h->mi.ny, h->mi.ld, h->mi.elemsize};
        return {h->vi.ptr, 1, 1, 1, h->vi.elemsize};
    }
    // ---- executing one task on the current memory -------------------------------------------------
    void body(Task& t)
    {
        ++executed;
        const int nb = (int)t.b.size();
        if (!t.snap.empty() && memcmp(t.snap.data(), t.arg, t.snap.size()) != 0) violation("task-argument", std::string("arguments of task ") + t.cl->name + " changed between submission and execution");
        enum { G = 64 };
        std::vector<std::vector<unsigned char>> mem(nb), was(nb);
        std::vector<starpu_matrix_interface> mi(nb);
        std::vector<starpu_variable_interface> vi(nb);
        std::vector<void*> bufs(nb + 1);
        for (int i = 0; i < nb; ++i) {
            const Region& r = t.b[i].r;
            size_t bytes = (size_t)r.m * r.n * r.es;
            mem[i].assign(bytes + 2 * G, 0xFF);  // NaN in every floating-point format
            if (t.b[i].mode & STARPU_R)
                for (uint32_t j = 0; j < r.n; ++j) memcpy(&mem[i][G + (size_t)j * r.m * r.es], (void*)(r.p + (uintptr_t)j * r.ld * r.es), r.m * r.es);
            was[i] = mem[i];
            uintptr_t p = (uintptr_t)&mem[i][G];
            mi[i] = {SPU_MATRIX, p, p, 0, r.m, r.n, r.m ? r.m : 1, r.es, bytes};
            vi[i] = {SPU_VARIABLE, p, p, 0, r.es};
            bufs[i] = t.b[i].kind == SPU_MATRIX ? (void*)&mi[i] : (void*)&vi[i];
        }
        t.cl->cpu_funcs[0](bufs.data(), t.arg);
        for (int i = 0; i < nb; ++i) {
            const Region& r = t.b[i].r;
            size_t bytes = (size_t)r.m * r.n * r.es;
            if (memcmp(&mem[i][0], &was[i][0], G) || memcmp(&mem[i][G + bytes], &was[i][G + bytes], G)) violation("out-of-tile", std::string("task ") + t.cl->name + " wrote outside buffer " + std::to_string(i));
            if (!(t.b[i].mode & STARPU_W)) {
                if (mem[i] != was[i]) violation("undeclared-write", std::string("task ") + t.cl->name + " changed buffer " + std::to_string(i) + " declared read-only");
            }
            else
                for (uint32_t j = 0; j < r.n; ++j) memcpy((void*)(r.p + (uintptr_t)j * r.ld * r.es), &mem[i][G + (size_t)j * r.m * r.es], r.m * r.es);
        }
    }
    void finish(int i)
    {
        Task& t = tasks[i];
        if (t.done) return;
        t.done = true;
        if (t.cb) t.cb(t.cbarg);
    }
    void run(int i)
    {
        if (tasks[i].done) return;
        for (int d : tasks[i].dep) run(d);
        body(tasks[i]);
        finish(i);
    }
    /// the host needs the region: run what it depends on
    void sync(const Region& r, bool write)
    {
        std::vector<int> need;
        for (int i = 0; i < (int)tasks.size(); ++i) {
            if (tasks[i].done) continue;
            for (auto& b : tasks[i].b)
                if (((b.mode & STARPU_W) || write) && overlap(b.r, r)) { need.push_back(i); break; }
        }
        if (policy == LAZY_REV)
            for (size_t k = need.size(); k-- > 0;) run(need[k]);
        else
            for (int i : need) run(i);
    }
    void all()
    {
        if (policy == LAZY_REV)
            for (int i = (int)tasks.size(); i-- > 0;) run(i);
        else
            for (int i = 0; i < (int)tasks.size(); ++i) run(i);
    }
    int submit(starpu_task* s)
    {
        Task t;
        t.cl = s->cl;
        if (!t.cl || !t.cl->cpu_funcs[0] || !(t.cl->where & STARPU_CPU)) violation("codelet", "task without a CPU implementation");
        for (int i = 0; i < t.cl->nbuffers; ++i) {
            _starpu_data_state* h = s->handles[i];
            if (!h) violation("handle", std::string("task ") + t.cl->name + " has no handle for buffer " + std::to_string(i));
            if (h->cleaned) violation("handle", std::string("task ") + t.cl->name + " uses a handle whose partition was cleaned");
            if (h->kind == SPU_MATRIX && !h->kids.empty()) violation("handle", std::string("task ") + t.cl->name + " uses a partitioned handle");
            t.b.push_back({h->kind, (int)t.cl->modes[i], h->plan, reg(h), h->root, h->father});
            if (t.cl->modes[i] == 0) violation("access-mode", std::string("task ") + t.cl->name + " declares no access mode for buffer " + std::to_string(i));
        }
        if (s->handles[t.cl->nbuffers]) violation("handle", std::string("task ") + t.cl->name + " was given more handles than its codelet declares");
        // one task may not access the same location through two handles if it writes one of them, and handles that come
        // from different partition plans of one tile cannot be active together unless both only read
        for (size_t i = 0; i < t.b.size(); ++i)
            for (size_t j = i + 1; j < t.b.size(); ++j) {
                if (!((t.b[i].mode | t.b[j].mode) & STARPU_W)) continue;
                if (overlap(t.b[i].r, t.b[j].r)) violation("aliased-buffers", std::string("task ") + t.cl->name + " accesses one location through two handles");
                bool pi = t.b[i].plan > 0, pj = t.b[j].plan > 0;
                if (pi && pj && t.b[i].father == t.b[j].father && t.b[i].plan != t.b[j].plan) violation("incompatible-handles", std::string("task ") + t.cl->name + " uses two partition plans of one tile");
            }
        t.arg = s->cl_arg;
        if (s->cl_arg) t.snap.assign((unsigned char*)s->cl_arg, (unsigned char*)s->cl_arg + s->cl_arg_size);
        t.cb = s->callback_func;
        t.cbarg = s->callback_arg;
        const int me = (int)tasks.size();
        for (int i = 0; i < me; ++i)
            for (auto& x : tasks[i].b)
                for (auto& y : t.b)
                    if (((x.mode | y.mode) & STARPU_W) && overlap(x.r, y.r)) t.dep.insert(i);
        tasks.push_back(t);
        delete s;
        if (policy == EAGER) {
            bool later = false;
            for (int d : delay) later = later || d == me;
            if (!later) run(me);
        }
        return 0;
    }
    // ---- exhaustive exploration of the pending graph ------------------------------------------------
    typedef std::vector<unsigned char> Mem;
    Mem snapshot()
    {
        Mem m;
        for (auto* h : roots) {
            if (h->cleaned) continue;
            size_t bytes = (size_t)h->mi.ld * h->mi.ny * h->mi.elemsize;
            m.insert(m.end(), (unsigned char*)h->mi.ptr, (unsigned char*)h->mi.ptr + bytes);
        }
        return m;
    }
    void restore(const Mem& m)
    {
        size_t o = 0;
        for (auto* h : roots) {
            if (h->cleaned) continue;
            size_t bytes = (size_t)h->mi.ld * h->mi.ny * h->mi.elemsize;
            memcpy((void*)h->mi.ptr, &m[o], bytes);
            o += bytes;
        }
    }
    /// Every order of the pending tasks that respects the dependencies, as a search over (set of finished tasks, memory).
    /// Returns false if `maxStates` is exceeded. The program order's memory is left in place.
    bool explore(size_t maxStates)
    {
        std::vector<int> id;
        for (int i = 0; i < (int)tasks.size(); ++i) if (!tasks[i].done) id.push_back(i);
        const int n = (int)id.size();
        if (n > 63) return false;
        std::vector<uint64_t> dep(n, 0);
        for (int i = 0; i < n; ++i)
            for (int k = 0; k < i; ++k) if (tasks[id[i]].dep.count(id[k])) dep[i] |= 1ull << k;
        Mem start = snapshot();
        for (int i = 0; i < n; ++i) body(tasks[id[i]]);
        Mem program = snapshot();
        std::map<std::pair<uint64_t, Mem>, int> cur, nxt;
        cur[{0, start}] = -1;
        size_t total = 1;
        for (int lev = 0; lev < n; ++lev) {
            nxt.clear();
            for (auto& s : cur)
                for (int i = 0; i < n; ++i) {
                    if ((s.first.first >> i & 1) || (dep[i] & ~s.first.first)) continue;
                    restore(s.first.second);
                    body(tasks[id[i]]);
                    ++ntrans;
                    auto r = nxt.insert({{s.first.first | 1ull << i, snapshot()}, i});
                    if (r.second && ++total > maxStates) { restore(program); finishAll(id); return false; }
                }
            cur.swap(nxt);
        }
        nstates += total;
        for (auto& s : cur)
            if (s.first.second != program) violation("schedule-dependence", "an order of the tasks that respects the declared accesses gives another result (last task " + std::string(n ? tasks[id[s.second]].cl->name : "") + ")");
        restore(program);
        finishAll(id);
        return true;
    }
    void finishAll(const std::vector<int>& id)
    {
        for (int i : id) finish(i);
    }
};
inline Sim& S()
{
    static Sim s;
    return s;
}
inline void applyFilter(_starpu_data_state* f, _starpu_data_state* c, starpu_data_filter flt, unsigned id, unsigned n)
{
    c->father = f;
    c->root = f->root;
    if (flt.get_child_ops) c->kind = flt.get_child_ops(&flt, id)->kind;
    if (c->kind == SPU_MATRIX) {
        c->mi.id = SPU_MATRIX;
        flt.filter_func(&f->mi, &c->mi, &flt, id, n);
        // the same filter on a memory node that holds no copy
        starpu_matrix_interface fi = f->mi, ci = {};
        fi.ptr = fi.dev_handle = 0; fi.ld = 0; fi.offset = 0;
        flt.filter_func(&fi, &ci, &flt, id, n);
        if (ci.nx != c->mi.nx || ci.ny != c->mi.ny || ci.elemsize != c->mi.elemsize || ci.ptr || ci.dev_handle) violation("filter", "a filter describes a different block on a node without data");
        if (c->mi.nx > f->mi.nx || c->mi.ny > f->mi.ny) violation("filter", "a block larger than its matrix");
        if (c->mi.nx && c->mi.ny) {
            uintptr_t lo = f->mi.ptr, o = c->mi.ptr - lo, colb = (uintptr_t)f->mi.ld * f->mi.elemsize;
            if (c->mi.ptr < lo || o / colb + c->mi.ny > f->mi.ny || (o % colb) / f->mi.elemsize + c->mi.nx > f->mi.nx || c->mi.ld != f->mi.ld) violation("filter", "a block outside its matrix");
        }
    }
    else
        flt.filter_func(&f->mi, &c->vi, &flt, id, n);
}
}  // namespace spu

// ---- the API ---------------------------------------------------------------------------------------
inline void starpu_matrix_data_register(starpu_data_handle_t* h, int node, uintptr_t ptr, uint32_t ld, uint32_t nx, uint32_t ny, size_t elemsize)
{
    (void)node;
    auto* s = spu::S().add();
    s->kind = SPU_MATRIX;
    s->mi = {SPU_MATRIX, ptr, ptr, 0, nx, ny, ld, elemsize, (size_t)ld * ny * elemsize};
    s->root = s;
    spu::S().roots.push_back(s);
    *h = s;
}
inline void starpu_data_map_filters(starpu_data_handle_t root, unsigned n, ...);
inline void spu_map(starpu_data_handle_t h, const starpu_data_filter* const* f, unsigned n)
{
    if (n == 0) return;
    for (unsigned i = 0; i < f[0]->nchildren; ++i) {
        auto* c = spu::S().add();
        spu::applyFilter(h, c, *f[0], i, f[0]->nchildren);
        h->kids.push_back(c);
        spu_map(c, f + 1, n - 1);
    }
}
inline void starpu_data_map_filters(starpu_data_handle_t root, unsigned n, ...)
{
    if (n != 2) spu::violation("stub", "map_filters with other than two filters");
    const starpu_data_filter* f[2];
    va_list ap;
    va_start(ap, n);
    f[0] = va_arg(ap, const starpu_data_filter*);
    f[1] = va_arg(ap, const starpu_data_filter*);
    va_end(ap);
    spu_map(root, f, 2);
}
inline starpu_data_handle_t starpu_data_get_child(starpu_data_handle_t h, unsigned i)
{
    if (i >= h->kids.size()) spu::violation("tile-index", "child " + std::to_string(i) + " of a handle with " + std::to_string(h->kids.size()) + " children");
    return h->kids[i];
}
inline starpu_data_handle_t starpu_data_get_sub_data(starpu_data_handle_t h, unsigned depth, ...)
{
    va_list ap;
    va_start(ap, depth);
    for (unsigned d = 0; d < depth; ++d) h = starpu_data_get_child(h, va_arg(ap, unsigned));
    va_end(ap);
    return h;
}
inline uint32_t starpu_matrix_get_nx(starpu_data_handle_t h) { return h->mi.nx; }
inline uint32_t starpu_matrix_get_ny(starpu_data_handle_t h) { return h->mi.ny; }
inline uint32_t starpu_matrix_get_local_ld(starpu_data_handle_t h) { return h->mi.ld; }
inline void starpu_data_partition_plan(starpu_data_handle_t root, struct starpu_data_filter* f, starpu_data_handle_t* out)
{
    int plan = ++spu::S().plans;
    for (unsigned i = 0; i < f->nchildren; ++i) {
        auto* c = spu::S().add();
        spu::applyFilter(root, c, *f, i, f->nchildren);
        c->plan = plan;
        out[i] = c;
    }
}
inline void starpu_data_partition_clean(starpu_data_handle_t root, unsigned n, starpu_data_handle_t* h)
{
    for (unsigned i = 0; i < n; ++i) {
        if (h[i]->father != root || h[i]->plan == 0 || h[i]->plan != h[0]->plan) spu::violation("partition-clean", "cleaning handles that were not planned together on this tile");
        if (h[i]->cleaned) spu::violation("partition-clean", "a partition is cleaned twice");
    }
    for (unsigned i = 0; i < n; ++i) h[i]->cleaned = true;
}
inline void starpu_data_unpartition(starpu_data_handle_t h, int) { spu::S().sync(spu::Sim::reg(h), true); }
inline void starpu_data_unregister(starpu_data_handle_t h)
{
    spu::S().sync(spu::Sim::reg(h), true);
    for (auto* x : spu::S().handles)
        if (x->root == h && x->plan && !x->cleaned) spu::violation("partition-clean", "a matrix is destroyed while one of its tiles is still partitioned");
    h->cleaned = true;
}
inline void starpu_data_unregister_submit(starpu_data_handle_t h) { h->cleaned = true; }
inline void starpu_variable_data_register(starpu_data_handle_t* h, int, uintptr_t ptr, size_t size)
{
    auto* s = spu::S().add();
    s->kind = SPU_VARIABLE;
    s->vi = {SPU_VARIABLE, ptr, ptr, 0, size};
    s->root = s;
    *h = s;
}
inline uintptr_t starpu_variable_get_local_ptr(starpu_data_handle_t h)
{
    if (spu::S().acquired <= 0) spu::violation("acquire", "local pointer taken without acquiring the data");
    return h->vi.ptr;
}
inline struct starpu_data_interface_ops* starpu_matrix_filter_pick_variable_child_ops(struct starpu_data_filter*, unsigned) { return &spu_variable_ops; }
inline void starpu_matrix_filter_pick_variable(void* father, void* child, struct starpu_data_filter* f, unsigned, unsigned)
{
    auto* m = (starpu_matrix_interface*)father;
    auto* v = (starpu_variable_interface*)child;
    const unsigned* pos = (const unsigned*)f->filter_arg_ptr;
    if (pos[0] >= m->nx || pos[1] >= m->ny) spu::violation("entry-index", "entry outside its tile");
    v->id = SPU_VARIABLE;
    v->elemsize = m->elemsize;
    v->ptr = v->dev_handle = m->ptr + (pos[0] + (uintptr_t)pos[1] * m->ld) * m->elemsize;
    v->offset = 0;
}
inline int starpu_data_acquire(starpu_data_handle_t h, enum starpu_data_access_mode m)
{
    if (h->cleaned) spu::violation("acquire", "acquiring a cleaned handle");
    spu::S().sync(spu::Sim::reg(h), m & STARPU_W);
    spu::S().acquired++;
    return 0;
}
inline void starpu_data_release(starpu_data_handle_t) { spu::S().acquired--; }
inline struct starpu_task* starpu_task_create() { return new starpu_task; }
inline int starpu_task_submit(struct starpu_task* t) { return spu::S().submit(t); }
inline int starpu_task_wait_for_all()
{
    spu::S().all();
    return 0;
}
inline unsigned starpu_cuda_worker_get_count() { return 0; }
inline int starpu_memory_pin(void*, size_t) { return 0; }
inline int starpu_memory_unpin(void*, size_t) { return 0; }
