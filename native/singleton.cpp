// native search for C34: scripted policies (another thread appears at a chosen point), and real threads with the library's policies
#include "h.h"
#include <thread>
#include <atomic>
#include <icl_core/Singleton.hpp>
#include <icl_core_thread/SingletonThreadingModels.h>
#include <icl_core_logging/SingletonThreadingModels.h>
struct Boom {};
struct Dead {};
// ---- scripted
struct T1 { int x; };
static T1 other_object, my_objects[16];
static int made, destroyed, told, asked, held, point, appear, throw_create, throw_dead, since_made;
static icl_core::DestructionFuncPtr told_f;
template <class T> struct C; template <class T> struct L; template <class T> struct M;
typedef icl_core::Singleton<T1, C, L, M> S;
static void other_thread();
static void here() { if (point++ == appear && !held) other_thread(); }
template <class T> struct C { static T* create(); static void destroy(T*); };
template <class T> struct L { static void scheduleDestruction(icl_core::DestructionFuncPtr f) { ++told; told_f = f; } static void onDeadReference() { ++asked; CHECK(held, "the lifetime policy is asked without the lock"); if (throw_dead) throw Dead(); } };
struct Mtx { int s; };
struct Grd { Mtx& m; explicit Grd(Mtx& x); ~Grd(); };
template <class T> struct M { static void memoryBarrier() { here(); if (made && !since_made) CHECK(S::m_instance != &my_objects[0], "the object is published before the memory barrier"); since_made = 1; } typedef Grd Guard; typedef Mtx Lock; };
static void other_thread() { if (!S::m_instance) { S::m_instance = &other_object; S::m_destroyed = false; } }
template <class T> T* C<T>::create()
{
  CHECK(held, "an object is created without the lock"); CHECK(!S::m_instance, "an object is created although there is one"); CHECK(made == 0, "another object is created");
  if (throw_create) throw Boom();
  since_made = 0; return &my_objects[made++];
}
template <class T> void C<T>::destroy(T* p) { ++destroyed; CHECK(p == &my_objects[0] || p == &other_object, "something else is destroyed"); }
Grd::Grd(Mtx& x) : m(x) { CHECK(!held, "the lock is taken twice"); here(); held = 1; }
Grd::~Grd() { CHECK(held, "the lock is released twice"); held = 0; if (made) CHECK(since_made && S::m_instance == &my_objects[0], "the object created is not published before the lock is released"); }
static void scripted(Rng& r)
{
  made = destroyed = told = asked = held = point = 0; since_made = 0;
  throw_create = r.below(5) == 0; throw_dead = r.below(2) == 0; appear = r.below(7) - 1;
  bool has = r.below(4) == 0, dead = !has && r.coin();
  S::m_instance = has ? &other_object : NULL; S::m_destroyed = dead;
  g_ctx = cat("access, ", has ? "an instance exists" : "no instance", dead ? " (destroyed before)" : "", throw_dead ? ", the policy refuses" : "", throw_create ? ", creation fails" : "", ", another thread may create one at point ", appear);
  T1* p = NULL; bool boom = false, refused = false;
  try { p = &S::instance(); } catch (Boom&) { boom = true; } catch (Dead&) { refused = true; }
  CHECK(!held, "the lock is still held");
  if (boom || refused) { CHECK(!has && !made && told == 0, "the access failed although there is an object"); CHECK(boom ? throw_create : (throw_dead && dead && asked), "the access failed without reason"); CHECK(!S::m_instance || S::m_instance == &other_object, "a failed access left an instance"); return; }
  CHECK(p && p == S::m_instance && p == (made ? &my_objects[0] : &other_object), "not the instance there is");
  CHECK(made ? told == 1 && told_f == &S::destroySingleton : told == 0, "destruction scheduled ", told, " times for ", made, " objects");
  CHECK(asked == (made && dead ? 1 : 0), "the lifetime policy was asked ", asked, " times"); CHECK(!S::m_destroyed, "the instance is taken as destroyed");
  T1* q = &S::instance(); CHECK(q == p && made + (has ? 1 : 0) <= 1 && told <= 1, "the next access yields another object");
  g_ctx = "destruction"; S::destroySingleton();
  CHECK(destroyed == 1 && !S::m_instance && S::m_destroyed, "destroyed ", destroyed, " times, ", S::m_instance ? "still there" : "gone", S::m_destroyed ? "" : ", not remembered");
}
// ---- real threads
template <int N> struct T2 { static std::atomic<int> made, gone; static std::atomic<int> fail; int v; T2() : v(0) { ++made; if (fail > 0) { --fail; throw Boom(); } std::this_thread::sleep_for(std::chrono::microseconds(200)); v = 4711; } ~T2() { ++gone; v = 0; } };
template <int N> std::atomic<int> T2<N>::made(0);
template <int N> std::atomic<int> T2<N>::gone(0);
template <int N> std::atomic<int> T2<N>::fail(0);
template <class SS, class T> static void threads(const char* w, bool throws, Rng& r)
{
  T::made = T::gone = 0; T::fail = r.below(3) == 0 ? 1 : 0; int f = T::fail;
  g_ctx = cat("threads, ", w, f ? ", the first creation fails" : "");
  std::atomic<int> go(0), bad(0), late(0); const int n = 6; T* seen[n];
  std::vector<std::thread> ts;
  for (int i = 0; i < n; ++i) ts.emplace_back([&, i] { ++go; while (go < n) {} try { seen[i] = &SS::instance(); if (seen[i]->v != 4711) ++late; } catch (Boom&) { ++bad; seen[i] = NULL; } });
  for (auto& t : ts) t.join();
  CHECK(T::made == 1 + f && bad == f, T::made - f, " objects were created"); CHECK(!late, "an object was seen before it was complete");
  for (int i = 0; i < n; ++i) CHECK(!seen[i] || seen[i] == SS::m_instance, "threads got different objects");
  SS::destroySingleton(); CHECK(T::gone == 1 && !SS::m_instance, "destroyed ", int(T::gone), " times");
  for (int k = 0; k < 2; ++k)
  {
    bool e = false; try { SS::instance(); } catch (std::logic_error&) { e = true; }
    CHECK(e == throws, w, ": access ", k + 1, " after destruction ", e ? "fails" : "succeeds");
  }
  CHECK(T::made == 1 + f + (throws ? 0 : 1), "objects created after destruction: ", T::made - 1 - f);
  if (!throws) SS::destroySingleton();
  SS::m_destroyed = false;
}
template <class T> struct Quiet { static void scheduleDestruction(icl_core::DestructionFuncPtr) {} static void onDeadReference() { icl_core::SLPDefaultLifetime<T>::onDeadReference(); } };
void h_model(const std::string&, const Model&) { Rng r(1); h_search(r, h_now() + 3); }
void h_search(Rng& r, double until)
{
  for (int i = 0; i < 20000 && h_now() < until; ++i) scripted(r);
  for (int i = 0; i < 300 && h_now() < until; ++i)
  {
    alarm(30);
    threads<icl_core::Singleton<T2<1>, icl_core::SCPCreateUsingNew, Quiet, icl_core::thread::STMMultiThreadedWithMutex>, T2<1> >("mutex", true, r);
    threads<icl_core::Singleton<T2<2>, icl_core::SCPCreateUsingNew, icl_core::SLPNoDestroy, icl_core::logging::STMMultiThreadedWithSemaphore>, T2<2> >("semaphore", false, r);
  }
  alarm(0);
}
