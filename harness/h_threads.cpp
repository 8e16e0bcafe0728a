// C22, C23: jobs and events passed between threads.
#include <thread>
#include "vsvrs.h"
#include <vrs/helpers/JobQueue.h>
#include <vrs/os/Event.h>
using namespace vrs;
namespace {
struct Job { uint32_t v = 0; bool live = false; Job() = default; explicit Job(uint32_t x) : v(x), live(true) {}
  Job(const Job& o) = default; Job& operator=(const Job& o) = default;
  Job(Job&& o) noexcept : v(o.v), live(o.live) { o.live = false; } Job& operator=(Job&& o) noexcept { v = o.v; live = o.live; if (&o != this) o.live = false; return *this; } };
}
// Any sequence of requests, one thread: the queue does what a list would.
VS_ENTRY(h_queue_ops) {
  JobQueue<Job> q; vector<uint32_t> ref; bool ended = false;
  constexpr int N = TIER(4, 5);
  for (int i = 0; i < N; ++i) {
    switch (vs_choose(i < 2 ? 2 : 7, "op")) {
      case 0: { uint32_t v = vs_u32("job"); q.sendJob(Job(v)); ref.push_back(v); break; }
      case 1: { Job j(vs_u32("job")); q.sendJob(j); vs_assert(j.live, "a job that is copied is left alone"); ref.push_back(j.v); break; }
      case 2: { Job j; bool got = vs_choose(2, "how") ? q.getJob(j) : q.waitForJobMs(j, 0); vs_assert(got == !ref.empty(), "a job is available when one was sent");
        if (got) { vs_assert(j.live && j.v == ref[0], "jobs come in the order they were sent"); ref.erase(ref.begin()); vs_reach("got"); } break; }
      case 3: { std::deque<Job> js(1); bool got = q.waitForJobsMs(js, 0); vs_assert(got == !ref.empty() && js.size() == ref.size(), "all jobs waiting are given at once");
        for (size_t k = 0; k < js.size(); ++k) vs_assert(js[k].live && js[k].v == ref[k], "jobs come in the order they were sent"); ref.clear(); break; }
      case 4: { uint32_t limit = vs_u32("limit"); vector<uint32_t> gone, want, keep; for (uint32_t v : ref) (v < limit ? want : keep).push_back(v);
        q.cancelQueuedJobs([&](const Job& j) { return j.v < limit; }, [&](const Job& j) { vs_assert(j.live, "the jobs cancelled are handed to the clean-up whole"); gone.push_back(j.v); });
        vs_assert(gone.size() == want.size(), "each job cancelled is handed to the clean-up");
        for (size_t k = 0; k < gone.size(); ++k) vs_assert(gone[k] == want[k], "only the jobs cancelled are handed to the clean-up");
        if (!want.empty()) vs_reach("cancelled"); ref = keep; break; }
      case 5: { bool clear = vs_choose(2, "clear"); q.endQueue(clear); if (clear) ref.clear(); ended = true; Job j; vs_assert(!q.waitForJob(j), "nobody waits for a queue that ended"); vs_assert(!q.waitForJobMs(j, 10000), "nobody waits for a queue that ended"); break; }
      case 6: q.reset(); ref.clear(); ended = false; break;
    }
    vs_assert(q.getQueueSize() == ref.size(), "the size of the queue is the number of jobs waiting"); vs_assert(q.hasEnded() == ended, "the queue knows that it ended");
  }
  Job j;
  for (uint32_t v : ref) { vs_assert(q.getJob(j) && j.live && j.v == v, "jobs come in the order they were sent"); }
  vs_assert(!q.getJob(j), "no job comes twice");
  vs_reach("end");
}
// Two threads send, two threads take until the queue ends.
VS_ENTRY(h_queue_threads) {
  JobQueue<uint32_t> q; uint32_t v[3]; for (auto& x : v) x = vs_u32("job");
  vector<uint32_t> got[2]; bool all = vs_choose(2, "all");
  auto take = [&](int k) { uint32_t j; while (q.waitForJob(j)) got[k].push_back(j); };
  auto takeAll = [&](int k) { std::deque<uint32_t> js; while (!q.hasEnded()) if (q.waitForJobsMs(js, 5000)) for (uint32_t j : js) got[k].push_back(j); };
  std::thread c1([&] { take(0); }), c2([&] { if (all) takeAll(1); else take(1); });
  std::thread p([&] { q.sendJob(v[0]); q.sendJob(v[1]); });
  q.sendJob(v[2]);
  p.join();
  while (q.getQueueSize()) vs_yield();
  q.endQueue();
  c1.join(); c2.join();
  vs_assert(got[0].size() + got[1].size() == 3, "each job sent is taken by one thread, once");
  // as sets: each value sent is taken as often as it was sent, and those of one thread in their order
  vector<uint32_t> u = got[0]; u.insert(u.end(), got[1].begin(), got[1].end());
  int order[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}; bool ok = false;
  for (auto& o : order) ok = ok | ((u[0] == v[o[0]]) & (u[1] == v[o[1]]) & (u[2] == v[o[2]]));
  vs_assert(ok, "the jobs taken are the jobs sent");
  if (got[0].size() == 3) { bool inOrder = false; for (int i : {0, 1, 4}) inOrder = inOrder | ((u[0] == v[order[i][0]]) & (u[1] == v[order[i][1]]) & (u[2] == v[order[i][2]])); vs_assert(inOrder, "the jobs a thread sent are taken in the order it sent them"); vs_reach("one"); }
  vs_reach("end");
}
// Ending a queue with its thread: the thread has ended when the queue is gone.
VS_ENTRY(h_queue_end) {
  bool running = false, done = false; uint32_t sum = 0, v = vs_u32("job");
  {
    JobQueueWithThread<uint32_t> q;
    q.startThread([&] { running = true; uint32_t j; while (q.waitForJob(j)) sum += j; done = true; });
    q.sendJob(v);
    if (vs_choose(2, "wait")) while (q.getQueueSize()) vs_yield();
    if (vs_choose(2, "end")) q.endThread();
  }
  vs_assert(running && done, "the thread has ended when the queue is gone");
  vs_assert(sum == v || sum == 0, "a job is taken once at most");
  if (sum) vs_reach("taken");
}
// One event, any number of listeners in their wait.
VS_ENTRY(h_event) {
  bool all = vs_choose(2, "broadcast");
  os::EventChannel ch("e", all ? os::EventChannel::NotificationMode::BROADCAST : os::EventChannel::NotificationMode::UNICAST);
  int64_t value = (int64_t)vs_u64("value"); int n = 2;
  os::EventChannel::Status st[2]; os::EventChannel::Event ev[2]; bool waiting[2] = {};
  auto listen = [&](int k) { st[k] = ch.waitForEvent(ev[k], 0.05, 0); };
  std::thread a([&] { listen(0); }), b([&] { listen(1); });
  vs_yield();
  ch.dispatchEvent(value);
  int64_t missed = ch.getNumEventsSinceLastWait();
  a.join(); b.join();
  int got = 0; int64_t seen = 0;
  for (int k = 0; k < n; ++k) {
    vs_assert(st[k] == os::EventChannel::Status::SUCCESS || st[k] == os::EventChannel::Status::TIMEOUT, "a wait ends with the event or when its time is up");
    if (st[k] == os::EventChannel::Status::SUCCESS) { ++got; vs_assert(ev[k].value == value, "a listener gets the value of the event"); }
    seen += ev[k].numMissedEvents;
  }
  (void)waiting;
  if (!all) vs_assert(got <= 1, "an event for one listener wakes one only");
  if (missed == 0 && !seen) vs_assert(got >= 1, "an event nobody missed was given to a listener");
  if (got) vs_assert(missed == 0, "an event given to a listener isn't counted as missed");
  if (got == 2) vs_reach("both"); if (got == 1) vs_reach("one"); if (!got) vs_reach("none");
}
// Events sent while nobody listens are counted, and the last can be looked back at.
VS_ENTRY(h_event_past) {
  os::EventChannel ch("e", vs_choose(2, "broadcast") ? os::EventChannel::NotificationMode::BROADCAST : os::EventChannel::NotificationMode::UNICAST);
  int n = (int)vs_choose(4, "events"); int64_t last = 0;
  for (int i = 0; i < n; ++i) { last = (int64_t)vs_u64("value"); ch.dispatchEvent(last); }
  vs_assert(ch.getNumEventsSinceLastWait() == n, "events nobody waited for are counted");
  os::EventChannel::Event ev{}; double back = vs_f64("back"); vs_assume(back == 0 || (back >= 1000 && back <= 1e9));
  auto st = ch.waitForEvent(ev, 0.001, back);
  if (n && back > 0) { vs_assert(st == os::EventChannel::Status::SUCCESS && ev.value == last && ev.numMissedEvents == n - 1, "looking back gives the last event, and how many came before it"); vs_reach("past"); }
  else { vs_assert(st == os::EventChannel::Status::TIMEOUT && ev.numMissedEvents == n, "a wait that runs out tells how many events were missed"); vs_reach("timeout"); }
  vs_assert(ch.getNumEventsSinceLastWait() == 0, "the count starts again after a wait");
}
