// Deterministic scheduler for stateless model checking of code that uses
// pthread mutexes, condition variables and threads (std::mutex, ..., std::async
// are built on these). Only one thread runs at a time; at every synchronisation
// operation the scheduler chooses the next one. The choices of an execution are
// enumerated by depth-first search with a bound on preemptions, or drawn at
// random. Include it in exactly one translation unit of the executable: its
// pthread_* definitions take precedence over the ones of libc.
#ifndef VERIF_SCHED_H
#define VERIF_SCHED_H
#include <dlfcn.h>
#include <errno.h>
#include <pthread.h>
#include <semaphore.h>
#include <time.h>
#include <unistd.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <random>
#include <set>
#include <string>
#include <vector>

#if defined(__SANITIZE_ADDRESS__)
extern "C" void *__asan_region_is_poisoned(void *, size_t);
extern "C" void __sanitizer_set_death_callback(void (*)(void));
#endif

namespace sched {
enum class Op { Run, Lock, Relock, Join, Sleep, Wait };

struct Thread {
  int Id = 0;
  sem_t Sem;
  Op Pending = Op::Run;
  const void *Obj = nullptr;      // mutex to acquire
  const void *Cond = nullptr;     // condition variable waited for
  bool Signaled = false, CanTimeout = false, TimedOut = false;
  Thread *Target = nullptr;       // thread to join
  std::function<bool()> Pred;     // for Op::Wait
  const char *What = "";
  bool Done = false, Detached = false, Joined = false;
  pthread_t Real;
  void *(*Fn)(void *) = nullptr;
  void *Arg = nullptr;
  int Passed = 0;                 // sleeps of others that ended during its own one
  int Timeouts = 0;               // waits that timed out since somebody slept
  unsigned Seq = 0;               // order of arrival in a condition variable
};

struct Choice { int Taken, Alts; bool CurEnabled; };

static thread_local Thread *Self = nullptr;
static std::vector<Thread *> Threads;
static std::map<const void *, Thread *> Owner;
static bool Active = false;
static std::vector<int> Prefix;
static std::vector<Choice> Trail;
static bool Random = false;
static std::mt19937 Rng;
static int SwitchPct = 30;
static int SpuriousBudget = 0, Spurious = 0;
static unsigned CondSeq = 0;
static long Steps = 0, MaxSteps = 200000;
static long Points = 0;
static std::vector<std::string> Log;      // events of the current execution
static std::string ScenarioName;

template<class F> static F real(const char *N, F *Cache) {
  if (!*Cache) *Cache = reinterpret_cast<F>(dlsym(RTLD_NEXT, N));
  return *Cache;
}
#define SCHED_REAL(NAME) \
  static decltype(&NAME) Real_##NAME = nullptr; \
  static inline decltype(&NAME) real_##NAME() { return real(#NAME, &Real_##NAME); }
SCHED_REAL(pthread_mutex_lock)
SCHED_REAL(pthread_mutex_trylock)
SCHED_REAL(pthread_mutex_unlock)
SCHED_REAL(pthread_cond_wait)
SCHED_REAL(pthread_cond_timedwait)
SCHED_REAL(pthread_cond_clockwait)
SCHED_REAL(pthread_cond_signal)
SCHED_REAL(pthread_cond_broadcast)
SCHED_REAL(pthread_cond_destroy)
SCHED_REAL(pthread_create)
SCHED_REAL(pthread_join)
SCHED_REAL(pthread_detach)
SCHED_REAL(nanosleep)
SCHED_REAL(clock_nanosleep)
SCHED_REAL(clock_gettime)

// Says whether the system refuses to create the next thread.
static bool (*RefuseThread)() = nullptr;

static inline void event(const std::string &E) { Log.push_back(E); }

static void dump(FILE *O) {
  fprintf(O, "scenario: %s\nchoices:", ScenarioName.c_str());
  for (auto &C : Trail) fprintf(O, " %d", C.Taken);
  fprintf(O, "\nevents:\n");
  for (auto &E : Log) fprintf(O, "  %s\n", E.c_str());
  fprintf(O, "threads:\n");
  for (auto *T : Threads)
    fprintf(O, "  %d: %s%s\n", T->Id, T->Done ? "finished " : "", T->What);
  fflush(O);
}

// 97: the property is violated (deadlock, use of freed synchronisation object...)
[[noreturn]] static void fail(const std::string &Why) {
  fflush(stdout);
  fprintf(stderr, "SUMMARY: scheduler: %s\n", Why.c_str());
  dump(stderr);
  _exit(97);
}

static bool othersEnabled(Thread *T);
static bool someoneSleeps();
static bool othersFirst(Thread *T);
static bool enabled(Thread *T) {
  if (T->Done) return false;
  switch (T->Pending) {
  case Op::Run: return true;
  case Op::Lock: return !Owner.count(T->Obj);
  case Op::Relock:
    if (Owner.count(T->Obj)) return false;
    return T->Signaled || Spurious > 0 || (T->CanTimeout && !othersEnabled(T) && (T->Timeouts < 3 || !someoneSleeps()));
  case Op::Join: return T->Target->Done;
  case Op::Sleep: return !othersEnabled(T) && !othersFirst(T);
  case Op::Wait: return T->Pred();
  }
  return false;
}
// Time passes (a sleep ends, a wait times out) only when nothing else can run.
static bool othersEnabled(Thread *T) {
  for (auto *X : Threads) {
    if (X == T || X->Done) continue;
    if (X->Pending == Op::Sleep) continue;
    if (X->Pending == Op::Relock && !X->Signaled) continue;
    if (enabled(X)) return true;
  }
  return false;
}

// Whoever sleeps in a loop does not overtake the same other one for ever.
static bool othersFirst(Thread *T) {
  for (auto *X : Threads)
    if (X != T && !X->Done && X->Passed >= 3 && X->Passed > T->Passed &&
        (X->Pending == Op::Sleep || (X->Pending == Op::Relock && !X->Signaled && X->CanTimeout &&
                                     X->Timeouts < 3 && !Owner.count(X->Obj))))
      return true;
  return false;
}
// Whoever waits in a loop with timeouts lets the others finish their sleep.
static bool someoneSleeps() {
  for (auto *X : Threads)
    if (!X->Done && X->Pending == Op::Sleep) return true;
  return false;
}

// Time which the program has seen passing in addition to the real one.
static long long ExtraNs = 0;
static long long nanoseconds(const timespec &T) { return T.tv_sec * 1000000000LL + T.tv_nsec; }
static void now(clockid_t K, timespec *T) {
  real_clock_gettime()(K, T);
  long long N = nanoseconds(*T) + ExtraNs;
  T->tv_sec = N / 1000000000LL;
  T->tv_nsec = N % 1000000000LL;
}
static void passUntil(clockid_t K, const timespec &To) {
  timespec T;
  now(K, &T);
  if (nanoseconds(To) >= nanoseconds(T)) ExtraNs += nanoseconds(To) - nanoseconds(T) + 1;
}
static std::function<void()> OnStuck;   // may end the process in its own way

static Thread *pick() {
  if (++Steps > MaxSteps) fail("an execution does not end (livelock)");
  std::vector<Thread *> E;
  bool Cur = Self && !Self->Done && enabled(Self);
  bool Progress = false;
  if (Cur) E.push_back(Self);
  for (auto *T : Threads)
    if (T != Self && enabled(T)) E.push_back(T);
  for (auto *T : E)
    if (!(T->Pending == Op::Relock && !T->Signaled && !T->CanTimeout)) Progress = true;
  if (E.empty() || !Progress) {
    if (OnStuck) OnStuck();
    fail("deadlock: no thread can run");
  }
  int K = 0;
  if (E.size() > 1) {
    size_t N = Trail.size();
    if (N < Prefix.size()) K = Prefix[N];
    else if (Random) {
      if (!Cur || int(Rng() % 100) < SwitchPct) K = int(Rng() % E.size());
    }
    if (K >= int(E.size())) fail("internal: the replayed schedule does not fit");
    Trail.push_back({K, int(E.size()), Cur});
  }
  return E[K];
}

// The calling thread has set its Pending operation; returns when it was chosen.
static void schedule() {
  ++Points;
  Thread *N = pick();
  if (N == Self) return;
  Thread *Me = Self;
  sem_post(&N->Sem);
  while (sem_wait(&Me->Sem) != 0) {}
}

static void point(const char *What) {
  if (!Active || !Self) return;
  Self->Pending = Op::Run;
  Self->What = What;
  schedule();
}

static void waitUntil(std::function<bool()> P, const char *What) {
  Self->Pending = Op::Wait;
  Self->Pred = std::move(P);
  Self->What = What;
  schedule();
  Self->Pending = Op::Run;
  Self->Pred = nullptr;
}

// The thread does nothing for as long as the others have something to do; their
// waits may time out meanwhile.
static void idle(const char *What) {
  Self->Pending = Op::Sleep;
  Self->What = What;
  Self->Passed = 0;
  schedule();
  Self->Pending = Op::Run;
  for (auto *T : Threads) {
    T->Timeouts = 0;
    ++T->Passed;
  }
}

static inline bool on() { return Active && Self; }

static inline void touch(const void *P, size_t N, const char *What) {
#if defined(__SANITIZE_ADDRESS__)
  if (__asan_region_is_poisoned(const_cast<void *>(P), N))
    fail(std::string("use of freed memory: ") + What);
#endif
}

static void acquire(const void *M, const char *What) {
  Self->Pending = Op::Lock;
  Self->Obj = M;
  Self->What = What;
  if (Owner.count(M) && Owner[M] == Self) fail("a thread locks a mutex it holds");
  schedule();
  touch(M, sizeof(pthread_mutex_t), "pthread_mutex_lock");
  Self->Pending = Op::Run;
  Owner[M] = Self;
}

static void release(const void *M) {
  auto I = Owner.find(M);
  if (I == Owner.end() || I->second != Self) fail("unlock of a mutex the thread does not hold");
  Owner.erase(I);
}

static int condWait(pthread_cond_t *C, pthread_mutex_t *M, clockid_t K = 0, const timespec *Till = nullptr) {
  bool Timed = Till != nullptr;
  point("before pthread_cond_wait");
  touch(C, sizeof(*C), "pthread_cond_wait");
  touch(M, sizeof(*M), "pthread_cond_wait");
  release(M);
  Self->Cond = C;
  Self->Signaled = false;
  Self->CanTimeout = Timed;
  Self->TimedOut = false;
  Self->Passed = 0;
  Self->Seq = ++CondSeq;
  Self->Pending = Op::Relock;
  Self->Obj = M;
  Self->What = "pthread_cond_wait";
  schedule();
  int R = 0;
  if (!Self->Signaled) {
    if (Timed && Spurious <= 0) {
      R = ETIMEDOUT;
      ++Self->Timeouts;
      passUntil(K, *Till);
    } else --Spurious;
  } else Self->Timeouts = 0;
  touch(M, sizeof(*M), "pthread_cond_wait");
  Self->Cond = nullptr;
  Self->CanTimeout = false;
  Self->Pending = Op::Run;
  Owner[M] = Self;
  return R;
}

static void wake(pthread_cond_t *C, bool All) {
  point("notify");
  touch(C, sizeof(*C), "pthread_cond_signal");
  for (;;) {
    Thread *W = nullptr;
    for (auto *T : Threads)
      if (!T->Done && T->Cond == C && !T->Signaled && (!W || T->Seq < W->Seq)) W = T;
    if (!W) return;
    W->Signaled = true;
    if (!All) return;
  }
}

static void *trampoline(void *P) {
  Thread *T = static_cast<Thread *>(P);
  Self = T;
  while (sem_wait(&T->Sem) != 0) {}
  void *R = T->Fn(T->Arg);
  T->Done = true;
  T->What = "finished";
  Thread *N = pick();
  Self = nullptr;
  sem_post(&N->Sem);
  return R;
}

static int liveThreads() {
  int N = 0;
  for (auto *T : Threads) N += !T->Done;
  return N;
}

// Runs one execution of Body with the current Prefix; Body runs as thread 0.
static void execute(const std::function<void()> &Body) {
  for (auto *T : Threads) { sem_destroy(&T->Sem); delete T; }
  Threads.clear();
  Owner.clear();
  Trail.clear();
  Log.clear();
  CondSeq = 0;
  Steps = 0;
  Spurious = SpuriousBudget;
  ExtraNs = 0;
  Thread *M = new Thread;
  sem_init(&M->Sem, 0, 0);
  M->What = "main";
  Threads.push_back(M);
  Self = M;
  Active = true;
  Body();
  waitUntil([] { return liveThreads() == 1; }, "waiting for all threads to finish");
  Active = false;
  Self = nullptr;
  // The real threads may still be on their way out; their Thread records are
  // not used any more after the last sem_post.
}

struct Stats { long Executions = 0, Preempt = 0; bool Complete = true; };

// Depth-first enumeration of schedules with at most Bound preemptions.
static Stats explore(const std::function<void()> &Body, int Bound, long MaxExec,
                     const std::function<void()> &After) {
  Stats S;
  Random = false;
  Prefix.clear();
  for (;;) {
    execute(Body);
    After();
    ++S.Executions;
    if (S.Executions >= MaxExec) { S.Complete = false; return S; }
    // next prefix
    std::vector<int> Cost(Trail.size() + 1, 0);
    for (size_t I = 0; I < Trail.size(); ++I)
      Cost[I + 1] = Cost[I] + (Trail[I].CurEnabled && Trail[I].Taken != 0);
    bool Found = false;
    for (size_t I = Trail.size(); I-- > 0;) {
      int Nx = Trail[I].Taken + 1;
      if (Nx >= Trail[I].Alts) continue;
      if (Cost[I] + (Trail[I].CurEnabled ? 1 : 0) > Bound) continue;
      Prefix.clear();
      for (size_t J = 0; J < I; ++J) Prefix.push_back(Trail[J].Taken);
      Prefix.push_back(Nx);
      Found = true;
      break;
    }
    if (!Found) return S;
  }
}

static Stats randomly(const std::function<void()> &Body, long Count, unsigned Seed,
                      const std::function<void()> &After) {
  Stats S;
  Random = true;
  Prefix.clear();
  for (long I = 0; I < Count; ++I) {
    Rng.seed(Seed + unsigned(I) * 2654435761u);
    SwitchPct = I % 3 == 0 ? 10 : I % 3 == 1 ? 40 : 75;
    execute(Body);
    After();
    ++S.Executions;
  }
  Random = false;
  return S;
}

// Releases what the scheduler holds; call it before main returns.
static void finish() {
  for (auto *T : Threads) { sem_destroy(&T->Sem); delete T; }
  Threads.clear();
  Log.clear();
}

#if defined(__SANITIZE_ADDRESS__)
static void onDeath() { if (Active) dump(stderr); }
#endif
static void init() {
#if defined(__SANITIZE_ADDRESS__)
  __sanitizer_set_death_callback(onDeath);
#endif
}
} // namespace sched

extern "C" {
int pthread_mutex_lock(pthread_mutex_t *M) {
  using namespace sched;
  if (!on()) return real_pthread_mutex_lock()(M);
  acquire(M, "pthread_mutex_lock");
  return 0;
}
int pthread_mutex_trylock(pthread_mutex_t *M) {
  using namespace sched;
  if (!on()) return real_pthread_mutex_trylock()(M);
  point("pthread_mutex_trylock");
  touch(M, sizeof(*M), "pthread_mutex_trylock");
  if (Owner.count(M)) return EBUSY;
  Owner[M] = Self;
  return 0;
}
int pthread_mutex_unlock(pthread_mutex_t *M) {
  using namespace sched;
  if (!on()) return real_pthread_mutex_unlock()(M);
  touch(M, sizeof(*M), "pthread_mutex_unlock");
  release(M);
  point("after pthread_mutex_unlock");
  return 0;
}
int pthread_cond_wait(pthread_cond_t *C, pthread_mutex_t *M) {
  using namespace sched;
  if (!on()) return real_pthread_cond_wait()(C, M);
  return condWait(C, M);
}
int pthread_cond_timedwait(pthread_cond_t *C, pthread_mutex_t *M, const timespec *T) {
  using namespace sched;
  if (!on()) return real_pthread_cond_timedwait()(C, M, T);
  return condWait(C, M, CLOCK_REALTIME, T);
}
int pthread_cond_clockwait(pthread_cond_t *C, pthread_mutex_t *M, clockid_t K, const timespec *T) {
  using namespace sched;
  if (!on()) return real_pthread_cond_clockwait()(C, M, K, T);
  return condWait(C, M, K, T);
}
int pthread_cond_signal(pthread_cond_t *C) {
  using namespace sched;
  if (!on()) return real_pthread_cond_signal()(C);
  wake(C, false);
  return 0;
}
int pthread_cond_broadcast(pthread_cond_t *C) {
  using namespace sched;
  if (!on()) return real_pthread_cond_broadcast()(C);
  wake(C, true);
  return 0;
}
int pthread_cond_destroy(pthread_cond_t *C) {
  using namespace sched;
  if (!on()) return real_pthread_cond_destroy()(C);
  for (auto *T : Threads)
    if (!T->Done && T->Cond == C && !T->Signaled)
      fail("a condition variable is destroyed while a thread waits for it");
  return 0;
}
int pthread_create(pthread_t *R, const pthread_attr_t *A, void *(*F)(void *), void *Arg) {
  using namespace sched;
  if (!on()) return real_pthread_create()(R, A, F, Arg);
  if (RefuseThread && RefuseThread()) return EAGAIN;
  Thread *T = new Thread;
  T->Id = int(Threads.size());
  T->Fn = F;
  T->Arg = Arg;
  T->What = "starting";
  sem_init(&T->Sem, 0, 0);
  Threads.push_back(T);
  int E = real_pthread_create()(&T->Real, A, trampoline, T);
  if (E != 0) fail("internal: cannot create a thread");
  *R = T->Real;
  point("after pthread_create");
  return 0;
}
static sched::Thread *schedFind(pthread_t R) {
  for (auto *T : sched::Threads)
    if (T->Id != 0 && pthread_equal(T->Real, R) && !T->Joined && !T->Detached) return T;
  return nullptr;
}
int pthread_join(pthread_t R, void **Ret) {
  using namespace sched;
  if (!on()) return real_pthread_join()(R, Ret);
  Thread *T = schedFind(R);
  if (!T) fail("join of an unknown thread");
  Self->Pending = Op::Join;
  Self->Target = T;
  Self->What = "pthread_join";
  schedule();
  Self->Pending = Op::Run;
  T->Joined = true;
  return real_pthread_join()(R, Ret);
}
int pthread_detach(pthread_t R) {
  using namespace sched;
  if (!on()) return real_pthread_detach()(R);
  Thread *T = schedFind(R);
  if (!T) fail("detach of an unknown thread");
  T->Detached = true;
  return real_pthread_detach()(R);
}
int nanosleep(const timespec *A, timespec *B) {
  using namespace sched;
  if (!on()) return real_nanosleep()(A, B);
  idle("nanosleep");
  return 0;
}
int clock_nanosleep(clockid_t K, int Fl, const timespec *A, timespec *B) {
  using namespace sched;
  if (!on()) return real_clock_nanosleep()(K, Fl, A, B);
  idle("clock_nanosleep");
  return 0;
}
int clock_gettime(clockid_t K, timespec *T) noexcept {
  using namespace sched;
  if (!on()) return real_clock_gettime()(K, T);
  now(K, T);
  return 0;
}
}
#endif
