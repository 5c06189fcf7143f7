#include "scheduler.hpp"

#include <dlfcn.h>
#include <elf.h>
#include <errno.h>
#include <fcntl.h>
#include <link.h>
#include <pthread.h>
#include <semaphore.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>

#include <algorithm>
#include <atomic>
#include <exception>

#define QUIET __attribute__((no_instrument_function))

namespace
{
struct Task
{
  int item = -1; // -1: the copier
  sem_t go;
  bool started = false, done = false;
  void const *waits_for = nullptr; // a mutex
  std::unique_ptr<std::thread> thread;
  std::vector<std::pair<void const *, int>> seen; // call sites
};

struct Engine : verif_ws::Controller
{
  ex::Run *run_ = nullptr;
  sched::Policy p;
  int streams = 0, points = 0, switches = 0, max_items = 0;

  // of the current stream
  std::vector<std::unique_ptr<Task>> tasks; // workers, then the copier
  std::function<void(int, int, int)> work;
  std::function<void(int, int)> copy;
  std::function<void()> new_scratch, new_copy;
  std::vector<int> copy_slot;          // per item
  std::vector<char> item_done;
  std::vector<char> scratch_used, copy_used;
  int next_copy = 0, n = 0, current = -1, preempted = 0, local_point = 0;
  bool free_choice = false;
  sem_t finished;
  std::exception_ptr error;
  bool stop = false;

  void run(int n_items, std::function<void()> ns, std::function<void()> nc,
           std::function<void(int, int, int)> w,
           std::function<void(int, int)> c) override;
  void body(int t);
  void yield_from(int t, bool can_continue);
  std::vector<int> enabled();
  bool first_times(void const *site);
  int order(int t);
  int pick_slot(std::vector<char> &used, std::function<void()> const &make,
                char const *what);
};

Engine engine;
thread_local int this_task = -1;
thread_local int no_points = 0;

QUIET bool Engine::first_times(void const *site)
{
  auto &seen = tasks[this_task]->seen;
  auto it = std::find_if(seen.begin(), seen.end(),
                         [&](auto const &x) { return x.first == site; });
  if (it == seen.end())
  {
    seen.push_back({site, 0});
    it = seen.end() - 1;
  }
  return it->second++ < p.repeats;
}

int Engine::pick_slot(std::vector<char> &used, std::function<void()> const &make,
                      char const *what)
{
  std::vector<int> free_slots;
  for (int i = 0; i < int(used.size()); ++i)
    if (!used[i])
      free_slots.push_back(i);
  int const k = free_slots.size();
  int c;
  if (p.uniform >= 0)
    c = (p.uniform & 1) || k == 0 ? k : 0;
  else if (free_choice && p.choose_slots)
    c = run_->choose(k + 1, what);
  else
    c = k == 0 ? 0 : k - 1; // the one freed last
  if (c == k)
  {
    ++no_points;
    make();
    --no_points;
    used.push_back(1);
    return used.size() - 1;
  }
  used[free_slots[c]] = 1;
  return free_slots[c];
}

void Engine::body(int t)
{
  Task &me = *tasks[t];
  while (sem_wait(&me.go) != 0)
    ;
  this_task = t;
  if (me.item >= 0)
  {
    int const s = pick_slot(scratch_used, new_scratch, "scratch");
    int const c = pick_slot(copy_used, new_copy, "copy");
    copy_slot[me.item] = c;
    try
    {
      if (!stop)
        work(me.item, s, c);
    }
    catch (...)
    {
      if (!error)
        error = std::current_exception();
      stop = true;
    }
    scratch_used[s] = 0;
    item_done[me.item] = 1;
  }
  else
  {
    while (next_copy < n)
    {
      try
      {
        if (!stop)
          copy(next_copy, copy_slot[next_copy]);
      }
      catch (...)
      {
        if (!error)
          error = std::current_exception();
        stop = true;
      }
      copy_used[copy_slot[next_copy]] = 0;
      ++next_copy;
      if (next_copy < n)
        yield_from(t, true);
    }
  }
  this_task = -1;
  me.done = true;
  yield_from(t, false);
}

// the copier is ready when the next item in order is
std::vector<int> Engine::enabled()
{
  std::vector<int> v;
  for (int t = 0; t < int(tasks.size()); ++t)
  {
    Task const &k = *tasks[t];
    if (k.done)
      continue;
    if (k.item < 0 && !item_done[next_copy])
      continue;
    if (k.item < 0 && p.lazy_copy &&
        std::find(item_done.begin(), item_done.end(), 0) != item_done.end())
      continue;
    v.push_back(t);
  }
  return v;
}

// position in a fixed schedule
int Engine::order(int t)
{
  int const i = tasks[t]->item;
  if (i < 0)
    return -1; // copy as soon as possible
  switch (p.uniform / 2)
  {
  case 1:
    return n - i;
  case 2:
    return (i + n / 2) % n;
  case 3:
    return i % 2 ? i / 2 : n + i;
  default:
    return i;
  }
}

void Engine::yield_from(int t, bool can_continue)
{
  int next = -1;
  bool const copier_blocked =
      can_continue && tasks[t]->item < 0 && !item_done[next_copy];
  auto v = enabled();
  if (v.empty())
  {
    sem_post(&finished);
    return;
  }
  // a task that waits for a mutex goes last
  std::stable_sort(v.begin(), v.end(),
                   [&](int a, int b)
                   { return !!tasks[a]->waits_for < !!tasks[b]->waits_for; });
  if (can_continue && !copier_blocked && !tasks[t]->waits_for &&
      !(p.lazy_copy && tasks[t]->item < 0))
  {
    // a preemption?
    int const here = local_point++;
    ++points;
    next = t;
    if (p.uniform < 0 && free_choice && preempted < p.preemptions &&
        v.size() > 1 &&
        (preempted > 0 || (here % p.slices == p.slice && here >= p.min_point)))
    {
      auto const at = std::find(v.begin(), v.end(), t);
      std::rotate(v.begin(), at, at + 1); // continue first
      int const c = run_->choose(v.size(), "preempt");
      next = v[c];
      if (c > 0)
        ++preempted;
    }
  }
  else if (p.uniform >= 0)
    next = *std::min_element(v.begin(), v.end(), [&](int a, int b)
                             { return order(a) < order(b); });
  else if (v.size() == 1 || !free_choice)
    next = v[0];
  else
  {
    int k = 0; // those that do not wait for a mutex
    for (int i : v)
      k += !tasks[i]->waits_for;
    next = v[run_->choose(std::max(k, 1), "next")];
  }
  if (next == t)
  {
    tasks[t]->waits_for = nullptr;
    return;
  }
  ++switches;
  current = next;
  Task &q = *tasks[next];
  q.waits_for = nullptr;
  if (!q.started)
  {
    q.started = true;
    ++no_points;
    q.thread = std::make_unique<std::thread>([this, next]() { body(next); });
    --no_points;
  }
  Task &me = *tasks[t];
  bool const done = me.done;
  sem_post(&q.go);
  if (!done)
    while (sem_wait(&me.go) != 0)
      ;
}

void Engine::run(int n_items, std::function<void()> ns, std::function<void()> nc,
                 std::function<void(int, int, int)> w,
                 std::function<void(int, int)> c)
{
  if (this_task >= 0)
  {
    // nested: sequential, fresh slots
    ns();
    nc();
    for (int i = 0; i < n_items; ++i)
    {
      w(i, 0, 0);
      c(i, 0);
    }
    return;
  }
  free_choice = (p.target < 0 || p.target == streams);
  ++streams;
  max_items = std::max(max_items, n_items);
  n = n_items;
  new_scratch = ns;
  new_copy = nc;
  work = w;
  copy = c;
  copy_slot.assign(n, -1);
  item_done.assign(n, 0);
  scratch_used.clear();
  copy_used.clear();
  next_copy = 0;
  preempted = 0;
  local_point = 0;
  error = nullptr;
  stop = false;
  tasks.clear();
  for (int i = 0; i <= n; ++i)
  {
    tasks.push_back(std::make_unique<Task>());
    tasks.back()->item = i < n ? i : -1;
    sem_init(&tasks.back()->go, 0, 0);
  }
  sem_init(&finished, 0, 0);
  // the copier comes first in the default schedule: copy when possible
  std::rotate(tasks.begin(), tasks.end() - 1, tasks.end());
  // start: an imaginary finished task gives the baton away
  tasks.push_back(std::make_unique<Task>());
  tasks.back()->item = 0;
  tasks.back()->done = true;
  yield_from(tasks.size() - 1, false);
  while (sem_wait(&finished) != 0)
    ;
  for (auto &t : tasks)
    if (t->thread)
      t->thread->join();
  tasks.clear();
  if (error)
    std::rethrow_exception(error);
}
} // namespace

namespace sched
{
void set(ex::Run *run, Policy const &policy)
{
  engine.run_ = run;
  engine.p = policy;
  engine.streams = engine.points = engine.switches = engine.max_items = 0;
  verif_ws::controller() = run ? &engine : nullptr;
}
int n_streams() { return engine.streams; }
int n_points() { return engine.points; }
int n_switches() { return engine.switches; }
int max_items() { return engine.max_items; }
QUIET void point(char const *what)
{
  if (this_task < 0 || no_points > 0)
    return;
  ++no_points;
  if (engine.first_times(what))
    engine.yield_from(this_task, true);
  --no_points;
}
} // namespace sched

// ------------------------------------------------ calls made by mfmg itself

namespace
{
struct Range
{
  std::uintptr_t lo, hi;
};
std::vector<Range> *mfmg_code = nullptr;
std::uintptr_t load_base = 0;

QUIET bool is_mfmg(char const *s)
{
  if (s[0] != '_' || s[1] != 'Z')
    return false;
  s += 2;
  while (*s == 'Z' || *s == 'N')
    ++s;
  if (*s == 'K')
    ++s;
  return std::strncmp(s, "4mfmg", 5) == 0;
}

QUIET void read_symbols()
{
  auto *v = new std::vector<Range>;
  dl_iterate_phdr(
      [](dl_phdr_info *i, size_t, void *)
      {
        load_base = i->dlpi_addr;
        return 1;
      },
      nullptr);
  int fd = open("/proc/self/exe", O_RDONLY);
  struct stat st;
  if (fd < 0 || fstat(fd, &st) != 0)
    std::abort();
  auto *base = static_cast<char *>(
      mmap(nullptr, st.st_size, PROT_READ, MAP_PRIVATE, fd, 0));
  auto *eh = reinterpret_cast<Elf64_Ehdr *>(base);
  auto *sh = reinterpret_cast<Elf64_Shdr *>(base + eh->e_shoff);
  for (int i = 0; i < eh->e_shnum; ++i)
    if (sh[i].sh_type == SHT_SYMTAB)
    {
      auto *sym = reinterpret_cast<Elf64_Sym *>(base + sh[i].sh_offset);
      char const *str = base + sh[sh[i].sh_link].sh_offset;
      for (std::size_t k = 0; k < sh[i].sh_size / sizeof(Elf64_Sym); ++k)
        if (ELF64_ST_TYPE(sym[k].st_info) == STT_FUNC && sym[k].st_size &&
            is_mfmg(str + sym[k].st_name))
          v->push_back({sym[k].st_value, sym[k].st_value + sym[k].st_size});
    }
  munmap(base, st.st_size);
  close(fd);
  std::sort(v->begin(), v->end(),
            [](Range const &a, Range const &b) { return a.lo < b.lo; });
  mfmg_code = v;
}

QUIET bool lookup(std::uintptr_t a)
{
  auto const &v = *mfmg_code;
  std::size_t lo = 0, hi = v.size();
  while (lo < hi)
  {
    std::size_t const mid = (lo + hi) / 2;
    if (v[mid].lo <= a)
      lo = mid + 1;
    else
      hi = mid;
  }
  return lo > 0 && a < v[lo - 1].hi;
}

struct Entry
{
  void *site;
  bool in;
};
Entry cache[1 << 16];
} // namespace

extern "C"
{
  QUIET void __cyg_profile_func_enter(void *, void *site)
  {
    if (this_task < 0 || no_points > 0)
      return;
    ++no_points;
    auto &e = cache[(reinterpret_cast<std::uintptr_t>(site) * 0x9E3779B97F4A7C15ull) >> 48];
    if (e.site != site)
    {
      if (!mfmg_code)
        read_symbols();
      e.in = lookup(reinterpret_cast<std::uintptr_t>(site) - load_base);
      e.site = site;
    }
    if (e.in && engine.p.preemptions > 0 && engine.free_choice)
    {
      if (engine.first_times(site))
        engine.yield_from(this_task, true);
    }
    --no_points;
  }
  QUIET void __cyg_profile_func_exit(void *, void *) {}

  // A preempted task may hold a mutex another one wants: waiting for it hands
  // the baton on.
  QUIET int pthread_mutex_lock(pthread_mutex_t *m)
  {
    using Lock = int (*)(pthread_mutex_t *);
    static Lock const real_lock =
        reinterpret_cast<Lock>(dlsym(RTLD_NEXT, "pthread_mutex_lock"));
    if (this_task < 0 || no_points > 0)
      return real_lock(m);
    while (true)
    {
      int const rc = pthread_mutex_trylock(m);
      if (rc != EBUSY)
        return rc;
      ++no_points;
      engine.tasks[this_task]->waits_for = m;
      engine.yield_from(this_task, true);
      --no_points;
    }
  }

  QUIET int pthread_mutex_unlock(pthread_mutex_t *m)
  {
    using Lock = int (*)(pthread_mutex_t *);
    static Lock const real_unlock =
        reinterpret_cast<Lock>(dlsym(RTLD_NEXT, "pthread_mutex_unlock"));
    if (this_task >= 0 && no_points == 0)
      for (auto &t : engine.tasks)
        if (t->waits_for == m)
          t->waits_for = nullptr;
    return real_unlock(m);
  }

  // no preemption while a function-local static is initialised
  QUIET int __cxa_guard_acquire(long long *g)
  {
    using F = int (*)(long long *);
    static F const real = reinterpret_cast<F>(dlsym(RTLD_NEXT, "__cxa_guard_acquire"));
    int const r = real(g);
    if (r && this_task >= 0)
      ++no_points;
    return r;
  }
  QUIET void __cxa_guard_release(long long *g)
  {
    using F = void (*)(long long *);
    static F const real = reinterpret_cast<F>(dlsym(RTLD_NEXT, "__cxa_guard_release"));
    if (this_task >= 0)
      --no_points;
    real(g);
  }
  QUIET void __cxa_guard_abort(long long *g)
  {
    using F = void (*)(long long *);
    static F const real = reinterpret_cast<F>(dlsym(RTLD_NEXT, "__cxa_guard_abort"));
    if (this_task >= 0)
      --no_points;
    real(g);
  }

  // ARPACK keeps its state between calls in the library
#define WRAP(name)                                                           \
  QUIET void name(void *a, void *b, void *c, void *d, void *e, void *f,      \
                  void *g, void *h, void *i, void *j, void *k, void *l,      \
                  void *m, void *n, void *o, void *p)                        \
  {                                                                          \
    using F = void (*)(void *, void *, void *, void *, void *, void *,       \
                       void *, void *, void *, void *, void *, void *,       \
                       void *, void *, void *, void *);                      \
    static F const real = reinterpret_cast<F>(dlsym(RTLD_NEXT, #name));      \
    sched::point(#name);                                                     \
    real(a, b, c, d, e, f, g, h, i, j, k, l, m, n, o, p);                    \
  }
  WRAP(dsaupd_)
  WRAP(dnaupd_)
}
