// C04: parallel sorts under every schedule.
#include "common.hpp"
#include <algorithm>
#include <small_gicp/util/sort_omp.hpp>
#include <small_gicp/util/sort_tbb.hpp>
using namespace mch;

using E = std::pair<uint32_t, uint32_t>;  // key, original position
enum Shape { RANDOM, SORTED, REVERSE, EQUAL, FEW, ORGAN, NSHAPE };
static const char* shape_name[] = {"random", "sorted", "reverse", "equal", "few", "organ"};
static std::vector<E> input(size_t n, int shape, uint32_t maxkey) {
  std::vector<E> v(n);
  Mix r(n * 7 + shape);
  for (size_t i = 0; i < n; i++) {
    uint32_t k = 0;
    switch (shape) {
      case RANDOM: k = (uint32_t)(r() & 0xffffffffu); break;
      case SORTED: k = (uint32_t)i; break;
      case REVERSE: k = (uint32_t)(n - i); break;
      case EQUAL: k = 5; break;
      case FEW: k = (uint32_t)(r() % 3); break;
      case ORGAN: k = (uint32_t)(i < n / 2 ? i : n - i); break;
    }
    v[i] = {maxkey ? k & maxkey : k, (uint32_t)i};
  }
  return v;
}
struct State { std::vector<E> buf; int work = 0; };
static const E GUARD{0xdeadbeefu, 0xffffffffu};

static std::string verify(const std::vector<E>& in, const std::vector<E>& buf, bool stable) {
  const size_t n = in.size();
  for (int g = 0; g < 2; g++) if (buf[g] != GUARD || buf[n + 2 + g] != GUARD) return "an element outside the range was modified";
  std::vector<char> seen(n, 0);
  for (size_t i = 0; i < n; i++) {
    const E& e = buf[i + 2];
    if (e.second >= n || in[e.second] != e) return str("position ", i, " holds an element that is not in the input");
    if (seen[e.second]++) return str("element ", e.second, " appears twice");
    if (i && buf[i + 1].first > e.first) return str("not sorted at position ", i);
    if (stable && i && buf[i + 1].first == e.first && buf[i + 1].second > e.second) return str("equal keys reordered at position ", i);
  }
  return "";
}

static void scen(const std::string& name, mc::Config cfg, std::vector<E> in, bool stable, std::function<void(E*, E*)> f) {
  auto st = std::make_shared<State>();
  auto pin = std::make_shared<std::vector<E>>(std::move(in));
  mc::Scenario s;
  s.name = name; s.cfg = cfg;
  s.setup = [=] { st->buf.assign(pin->size() + 4, GUARD); std::copy(pin->begin(), pin->end(), st->buf.begin() + 2); };
  s.body = [=] { f(st->buf.data() + 2, st->buf.data() + 2 + pin->size()); };
  s.check = [=] {
    uint64_t h = 0;
    for (auto& e : st->buf) h = h * 31 + e.second;
    mc::observe(h);
    return verify(*pin, st->buf, stable);
  };
  mc::add(s);
}

template <typename Key, int bits, int tile>
std::function<void(E*, E*)> radix() {
  return [](E* a, E* b) {
    RadixSortBuffers<E> buf;
    auto key = [](const E& e) { return (Key)e.first; };
    radix_sort_tbb<E, decltype(key), bits, tile>(a, b, key, buf);
  };
}
template <typename Key, int bits, int tile>
std::function<void(E*, E*)> radix_reused(std::vector<E> first) {
  return [first](E* a, E* b) {
    RadixSortBuffers<E> buf;  // scratch buffers left over from a longer and from a shorter sort
    auto key = [](const E& e) { return (Key)e.first; };
    auto x = first;
    radix_sort_tbb<E, decltype(key), bits, tile>(x.data(), x.data() + x.size(), key, buf);
    radix_sort_tbb<E, decltype(key), bits, tile>(a, b, key, buf);
  };
}

template <typename Key, int bits, int tile>
void exhaustive(const std::string& name, mc::Config cfg, std::vector<uint32_t> keys, size_t maxn) {
  auto err = std::make_shared<std::string>();
  mc::Scenario s;
  s.name = name; s.cfg = cfg;
  s.setup = [=] { err->clear(); };
  s.body = [=] {
    auto f = radix<Key, bits, tile>();
    uint64_t total = 1;
    for (size_t n = 1; n <= maxn; n++) {
      total *= keys.size();
      for (uint64_t c = 0; c < total && err->empty(); c++) {
        std::vector<E> in(n), buf(n + 4, GUARD);
        uint64_t x = c;
        for (size_t i = 0; i < n; i++) { in[i] = {keys[x % keys.size()], (uint32_t)i}; x /= keys.size(); buf[i + 2] = in[i]; }
        f(buf.data() + 2, buf.data() + 2 + n);
        *err = verify(in, buf, true);
        if (!err->empty()) *err = str("array ", c, " of length ", n, ": ", *err);
      }
    }
  };
  s.check = [=] { return *err; };
  mc::add(s);
}

// Every size of a list x every shape in one execution.
static void sizes(const std::string& name, mc::Config cfg, const std::vector<size_t>& ns, uint32_t mask, bool stable, std::function<void(E*, E*)> f, int nest = 1) {
  auto err = std::make_shared<std::vector<std::string>>();
  mc::Scenario s; s.name = name; s.cfg = cfg;
  s.setup = [=] { err->assign(ns.size(), ""); };
  s.body = [=] {
    in_team(nest, [&](int t) {
      for (size_t k = t; k < ns.size(); k += nest) for (int sh = 0; sh < NSHAPE && (*err)[k].empty(); sh++) {
        if (nest > 1 && sh != RANDOM) continue;
        const size_t n = ns[k]; std::string& er = (*err)[k];
        auto in = input(n, sh, sh == FEW ? 0 : mask); if (mask == 255 || mask == 65535) for (auto& e : in) e.first &= mask;
        std::vector<E> buf(n + 4, GUARD); std::copy(in.begin(), in.end(), buf.begin() + 2);
        f(buf.data() + 2, buf.data() + 2 + n);
        er = verify(in, buf, stable);
        if (!er.empty()) er = str(shape_name[sh], " n=", n, ": ", er);
      }
    });
  };
  s.check = [=]() -> std::string { for (auto& e : *err) if (!e.empty()) return e; return ""; };
  mc::add(s);
}

int main(int argc, char** argv) {
  const bool th = mc::thorough(argc, argv);
  auto cfg = [&](int T, mc::Policy p, int bound) { mc::Config c; c.max_threads = T; c.policy = p; c.bound = bound; return c; };
  const char* pn[] = {"greedy", "rr", "last"};
  auto merge = [](int nt) { return [nt](E* a, E* b) { merge_sort_omp(a, b, [](const E& x, const E& y) { return x.first < y.first; }, nt); }; };
  auto quick = [](int nt) { return [nt](E* a, E* b) { quick_sort_omp(a, b, [](const E& x, const E& y) { return x.first < y.first; }, nt); }; };
#ifdef MCRT_MAXT
  for (int p : {0, 1, 2})
    for (int nt : {9, 17, 33, 65, 70}) {
      sizes(str("merge/wide/t", nt, "/", pn[p]), cfg(nt, (mc::Policy)p, 0), {0, 5, 1100, 2600}, 1023, false, merge(nt)); sizes(str("quick/wide/t", nt, "/", pn[p]), cfg(nt, (mc::Policy)p, 0), {0, 5, 1100, 2600}, 1023, false, quick(nt));
      sizes(str("radix/wide/t", nt, "/", pn[p]), cfg(nt, (mc::Policy)p, 0), {0, 5, 70, 150}, 255, true, radix<uint8_t, 4, 2>());
    }
  return mc::main("C04", argc, argv);
#endif
  for (int nt : {1, 2}) {
    sizes(str("merge/nested/t", nt), cfg(2, mc::ROUND_ROBIN, th ? 3 : 2), {20, 1100}, 1023, false, merge(nt), 2); sizes(str("quick/nested/t", nt), cfg(2, mc::ROUND_ROBIN, th ? 3 : 2), {20, 1100}, 1023, false, quick(nt), 2);
    sizes(str("radix/nested/t", nt), cfg(nt, mc::ROUND_ROBIN, 1), {9, 13}, 255, true, radix<uint8_t, 4, 4>(), 2);
  }
  for (size_t n : {0, 1, 2, 17, 100}) {
    scen(str("merge/small/n", n), cfg(2, mc::ROUND_ROBIN, 2), input(n, RANDOM, 15), false, merge(2));
    scen(str("quick/small/n", n), cfg(2, mc::ROUND_ROBIN, 2), input(n, RANDOM, 15), false, quick(2));
  }
  for (int p : {0, 1, 2}) {
    if (!th && p == 2) continue;
    for (size_t n : {1023, 1024, 1025, 2049, 4100})
      for (int sh = 0; sh < NSHAPE; sh++)
        for (int nt : {2, 3}) {
          if (!th && (sh % 3 != (p == 0 ? 0 : 1)) && !(n == 1024 && p == 1)) continue;
          if (!th && n == 4100 && sh != RANDOM && sh != FEW) continue;
          if (nt == 3 && (n <= 1025 || sh > REVERSE) && !th) continue;
          auto c = cfg(nt, (mc::Policy)p, n <= 2049 ? (th ? (n <= 1025 ? 4 : 3) : (n <= 1025 ? 3 : 2)) : (th && nt == 2 ? 2 : 1));
          if (n == 1025) { c.task_undeferred = true; c.team_shrink = true; }
          scen(str("merge/", shape_name[sh], "/n", n, "/t", nt, "/", pn[p]), c, input(n, sh, sh == FEW ? 0 : 1023), false, merge(nt));
          scen(str("quick/", shape_name[sh], "/n", n, "/t", nt, "/", pn[p]), c, input(n, sh, sh == FEW ? 0 : 1023), false, quick(nt));
        }
    // radix: small tiles so that several tiles and several TBB ranges exist for short inputs
    for (int nt : {2, 3}) {
      const int b = th ? (nt == 2 ? 3 : 2) : (nt == 2 && p < 2 ? 2 : 1);
      for (size_t n : {0, 1, 3, 4, 5, 17, 33, 80})
        scen(str("radix/u8/b4/t4/n", n, "/t", nt, "/", pn[p]), cfg(nt, (mc::Policy)p, n <= 17 ? b : n <= 33 ? (th ? 2 : 1) : 1), input(n, RANDOM, 255), true, radix<uint8_t, 4, 4>());
      scen(str("radix/u16/b5/t2/n37/t", nt, "/", pn[p]), cfg(nt, (mc::Policy)p, 1), input(37, RANDOM, 65535), true, radix<uint16_t, 5, 2>());
      scen(str("radix/u8/b3/t2/few/n60/t", nt, "/", pn[p]), cfg(nt, (mc::Policy)p, 1), input(60, FEW, 0), true, radix<uint8_t, 3, 2>());
      scen(str("radix/u32/b8/t256/n1100/t", nt, "/", pn[p]), cfg(nt, (mc::Policy)p, th ? 1 : 0), input(1100, RANDOM, 0), true, radix<uint32_t, 8, 256>());
      scen(str("radix/reused/u8/b4/t4/n21/t", nt, "/", pn[p]), cfg(nt, (mc::Policy)p, 1), input(21, RANDOM, 255), true, radix_reused<uint8_t, 4, 4>(input(50, RANDOM, 255)));
      scen(str("radix/reused2/u8/b4/t4/n50/t", nt, "/", pn[p]), cfg(nt, (mc::Policy)p, 1), input(50, RANDOM, 255), true, radix_reused<uint8_t, 4, 4>(input(21, RANDOM, 255)));
      // odd numbers of digit passes end in the scratch buffer; many tiles; odd passes into a longer left-over scratch buffer
      scen(str("radix/u16/b6/t4/n29/t", nt, "/", pn[p]), cfg(nt, (mc::Policy)p, th ? 2 : 1), input(29, RANDOM, 65535), true, radix<uint16_t, 6, 4>());
      scen(str("radix/u32/b7/t8/n41/t", nt, "/", pn[p]), cfg(nt, (mc::Policy)p, th ? 1 : 0), input(41, RANDOM, 0), true, radix<uint32_t, 7, 8>());
      scen(str("radix/u8/b8/t4/n23/t", nt, "/", pn[p]), cfg(nt, (mc::Policy)p, th ? 2 : 1), input(23, RANDOM, 255), true, radix<uint8_t, 8, 4>());
      scen(str("radix/u8/b4/t2/n301/t", nt, "/", pn[p]), cfg(nt, (mc::Policy)p, th && nt == 2 ? 1 : 0), input(301, RANDOM, 255), true, radix<uint8_t, 4, 2>());
      scen(str("radix/reused/u8/b8/t4/n19/t", nt, "/", pn[p]), cfg(nt, (mc::Policy)p, 1), input(19, RANDOM, 255), true, radix_reused<uint8_t, 8, 4>(input(50, RANDOM, 255)));
      scen(str("radix/reused/u16/b6/t4/n19/t", nt, "/", pn[p]), cfg(nt, (mc::Policy)p, th ? 1 : 0), input(19, RANDOM, 65535), true, radix_reused<uint16_t, 6, 4>(input(43, RANDOM, 65535)));
      scen(str("radix/default/u32/n600/t", nt, "/", pn[p]), cfg(nt, (mc::Policy)p, th ? 1 : 0), input(600, RANDOM, 0), true, [](E* a, E* b) { radix_sort_tbb(a, b, [](const E& e) { return e.first; }); });
    }
  }
  std::vector<size_t> small, mid = {300, 511, 512, 513, 900, 1025, 1026, 1027, 1030, 1100, 1280, 1537, 2047, 2048, 2050, 3000, 4097}; for (size_t n = 0; n <= (th ? 260 : 130); n++) small.push_back(n);
  for (int nt : {1, 2, 3}) {
    sizes(str("merge/sizes/t", nt), cfg(nt, mc::ROUND_ROBIN, 0), mid, 1023, false, merge(nt)); sizes(str("quick/sizes/t", nt), cfg(nt, mc::ROUND_ROBIN, 0), mid, 1023, false, quick(nt));
    sizes(str("merge/sizes/small/t", nt), cfg(nt, mc::ROUND_ROBIN, 0), small, 63, false, merge(nt)); sizes(str("quick/sizes/small/t", nt), cfg(nt, mc::ROUND_ROBIN, 0), small, 63, false, quick(nt));
    sizes(str("radix/sizes/u8/b4/t16/t", nt), cfg(nt, mc::ROUND_ROBIN, 0), std::vector<size_t>(small.begin(), small.begin() + 70), 255, true, radix<uint8_t, 4, 16>());
    sizes(str("radix/sizes/default/t", nt), cfg(nt, mc::ROUND_ROBIN, 0), {255, 256, 257, 511, 513, 1025}, 0, true, [](E* a, E* b) { radix_sort_tbb(a, b, [](const E& e) { return e.first; }); });
  }
  // beyond 16-bit counts
  for (int nt : {2, 5}) {
    sizes(str("merge/large/t", nt), cfg(nt, mc::ROUND_ROBIN, 0), {20011, 66001}, 0xfffff, false, merge(nt)); sizes(str("quick/large/t", nt), cfg(nt, mc::ROUND_ROBIN, 0), {20011, 66001}, 0xfffff, false, quick(nt));
    sizes(str("radix/large/t", nt), cfg(nt, mc::ROUND_ROBIN, 0), {20011, 66001}, 0, true, [](E* a, E* b) { radix_sort_tbb(a, b, [](const E& e) { return e.first; }); });
  }
  // every array of up to five elements over key alphabets that exercise each digit
  for (int nt : {1, 2}) {
    exhaustive<uint16_t, 8, 2>(str("radix/all/u16/b8/t2/t", nt), cfg(nt, mc::ROUND_ROBIN, 0), {0x0000, 0x00ff, 0xff00, 0x0100}, th ? 5 : 4);
    exhaustive<uint8_t, 8, 2>(str("radix/all/u8/b8/t2/t", nt), cfg(nt, mc::ROUND_ROBIN, 0), {0, 127, 255}, th ? 5 : 4);
  }
  return mc::main("C04", argc, argv);
}
