// Several scripts of requests, each on a thread of its own.
#include "drv.hh"
#include <atomic>
#include <iconv.h>
#include <thread>

namespace drv {

  // Conversions kept open, lest glibc load & unload its converters (under locks
  // of its own, which ThreadSanitizer does not see) all the time
  static void hold_converters() {
    static bool done = false;
    if (done) return;
    done = true;
    for (int i = 0; i < 200; ++i) {
      std::ostringstream os;
      try { os << scribbu::encoding(i); } catch (...) { break; }
      iconv_open("UTF-8", os.str().c_str()); iconv_open(os.str().c_str(), "UTF-8");
    }
  }

  // par SEED SCRIPT... : the replies of each, and the order in which requests began
  static reg r_par("par", [](const args_t &a) {
      hold_converters();
      struct job { std::vector<std::string> lines, out; unsigned long long rnd; };
      std::vector<job> jobs(a.size() - 2);
      for (std::size_t i = 0; i < jobs.size(); ++i) {
        std::istringstream is(unhex(a[i + 2])); std::string l;
        while (std::getline(is, l)) jobs[i].lines.push_back(l);
        jobs[i].out.resize(jobs[i].lines.size());
        jobs[i].rnd = num(a.at(1)) * 1000003ull + i * 7919 + 1;
      }
      std::size_t total = 0;
      for (auto &j : jobs) total += j.lines.size();
      std::vector<std::atomic<int>> order(total);
      // relaxed throughout, so that nothing here orders the threads
      std::atomic<std::size_t> next(0), ready(0);
      std::vector<std::thread> ts;
      for (std::size_t i = 0; i < jobs.size(); ++i)
        ts.emplace_back([&, i]() {
            job &j = jobs[i];
            ready.fetch_add(1, std::memory_order_relaxed);
            while (ready.load(std::memory_order_relaxed) < jobs.size()) std::this_thread::yield();
            for (std::size_t k = 0; k < j.lines.size(); ++k) {
              j.rnd = j.rnd * 6364136223846793005ull + 1442695040888963407ull;
              unsigned x = j.rnd >> 40 & 15;
              if (x < 4) std::this_thread::yield();
              else if (x < 7) for (volatile int n = 0; n < int(x * 300); ++n);
              order[next.fetch_add(1, std::memory_order_relaxed)].store(i, std::memory_order_relaxed);
              j.out[k] = serve(j.lines[k]);
            }
            V2.clear(); V1.clear();
          });
      for (auto &t : ts) t.join();
      J r('[');
      for (auto &j : jobs) { J o('['); for (auto &s : j.out) o.push(s); r.push(o.done()); }
      std::string ord;
      for (auto &x : order) ord += char('a' + x.load());
      return J().raw("r", r.done()).str("order", ord).done();
    });
}
