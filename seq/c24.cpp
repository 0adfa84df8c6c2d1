// C24: no call leaves anything behind. An alphabet of library calls (every public part, several data sets and settings, failing and
// degenerate calls, reused objects) is executed in all orders up to a depth, each history in a process of its own; every result must be
// the one the call gives as the first call of a fresh process.
#include "calls.hpp"
static std::string diff(size_t k, const Out& a, const Out& b) {
  if (a.size() != b.size()) return str("returns ", a.size(), " values, ", b.size(), " in a fresh process");
  for (size_t i = 0; i < a.size(); i++) {
    if (memcmp(&a[i], &b[i], 8) == 0 || (a[i] == 0 && b[i] == 0) || (std::isnan(a[i]) && std::isnan(b[i]))) continue;
    if (!OPS[k].exact && std::abs(a[i] - b[i]) <= 1e-7 * (1 + std::abs(b[i]))) continue;
    return str("value ", i, " is ", a[i], ", in a fresh process ", b[i]);
  }
  return "";
}
static std::vector<Out> REF; static std::vector<std::string> REFERR;
static std::string history(const std::vector<size_t>& h, int rep = 1, bool threads = false) {
  auto text = [&](size_t upto) { std::string s; for (size_t i = 0; i <= upto && i < h.size(); i++) s += str(i ? ", " : "", OPS[h[i]].name); return s; };
  std::string m = isolated([&](Box& b) -> std::string {
    uint64_t hs = 0;
    for (size_t i = 0; i < h.size(); i++)
      for (int k = 0; k < (i + 1 < h.size() || h.size() == 1 ? rep : 1); k++) {
        b.n = i;
        Out o;
        if (threads && i % 2) { std::thread t([&] { o = perform(h[i]); }); t.join(); } else o = perform(h[i]);
        if (!REFERR[h[i]].empty()) return OPS[h[i]].name + (" in a fresh process: " + REFERR[h[i]]);
        auto d = diff(h[i], o, REF[h[i]]);
        if (!d.empty()) return str(text(i), rep > 1 ? str(" (repeated ", k + 1, " times)") : "", ": the last call ", d);
        hs = seqx::mix(hs, h[i] * 4096 + o.size());
      }
    b.n = hs; return "";
  });
  if (m.compare(0, 2, "@@") == 0) m = str(text((size_t)g_box->n), ": the last call", m.substr(2));
  if (m.empty()) seqx::state(g_box->n);
  seqx::step(h.size() * rep);
  return m;
}

int main(int argc, char** argv) {
  const bool th = seqx::thorough(argc, argv);
  data(); ops();
  const size_t N = OPS.size();
  inplace_ops();
  const size_t ALL = OPS.size(), M = ALL - N;
  REF.resize(ALL); REFERR.resize(ALL);
  bool list = false; for (int i = 1; i < argc; i++) if (!strcmp(argv[i], "--list")) list = true;
  for (size_t k = 0; !list && k < ALL; k++) {
    Box* b; REFERR[k] = isolated([&](Box& b) -> std::string { Out o = perform(k); if (o.size() > 40000) return "too long"; b.n = o.size(); std::copy(o.begin(), o.end(), b.v); return ""; }, &b);
    if (REFERR[k].empty()) REF[k].assign(b->v, b->v + b->n);
  }
  auto name = [](size_t k) { return OPS[k].name; };
  seqx::add("repeat", N * 3, [=](uint64_t i) { seqx::Odo o(i); size_t k = o(N); return history({k}, std::vector<int>{2, 40, 130}[o(3)]); });
  seqx::add("pairs", N * N * 2, [=](uint64_t i) { seqx::Odo o(i); size_t a = o(N), b = o(N); return history({a, b}, 1, o(2)); });
  seqx::add("pairs/repeated", N * N, [=](uint64_t i) { seqx::Odo o(i); size_t a = o(N), b = o(N); return history({a, b}, 12); });
  // one there-and-back history per ordered pair: a, b, a, b with threads
  seqx::add("alternate", N * N, [=](uint64_t i) { seqx::Odo o(i); size_t a = o(N), b = o(N); return history({a, b, a, b, b, a}, 1, true); });
  seqx::add("triples", N * N * N, [=](uint64_t i) { seqx::Odo o(i); size_t a = o(N), b = o(N), c = o(N); SAMPLE(str(name(a), ", ", name(b), ", ", name(c))); return history({a, b, c}); });
  seqx::add("in-place/pairs", M * M * 2, [=](uint64_t i) { seqx::Odo o(i); size_t a = N + o(M), b = N + o(M); return o(2) ? history({a, b}, 3) : history({a, b, a}, 1, true); });
  seqx::add("in-place/mixed", N * M * 2, [=](uint64_t i) { seqx::Odo o(i); size_t a = o(N), b = N + o(M); return o(2) ? history({a, b}) : history({b, a}); });
  seqx::add("in-place/triples", M * M * M, [=](uint64_t i) { seqx::Odo o(i); size_t a = N + o(M), b = N + o(M), c = N + o(M); return history({a, b, c}); });
  if (th) {
    // all histories of length four over the calls that reuse objects, and over the preprocessing calls
    std::vector<size_t> R, Q; for (size_t k = 0; k < N; k++) (strstr(OPS[k].name, "reused") ? R : Q).push_back(k);
    seqx::add("reused/len5", R.size() * R.size() * R.size() * R.size() * R.size(), [=](uint64_t i) { seqx::Odo o(i); std::vector<size_t> h; for (int k = 0; k < 5; k++) h.push_back(R[o(R.size())]); return history(h); });
    seqx::add("others/len4", Q.size() * Q.size() * Q.size() * Q.size(), [=](uint64_t i) { seqx::Odo o(i); std::vector<size_t> h; for (int k = 0; k < 4; k++) h.push_back(Q[o(Q.size())]); return history(h); });
  }
  return seqx::main("C24", argc, argv);
}
