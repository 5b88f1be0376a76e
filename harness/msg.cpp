// Message passing wrappers (C29)
#include "common.h"
#include "fakefits.h"
#include "group.h"
#include "ls_mpi_support.h"
#include "ls_error_handling.h"
using namespace levels;
template<class F> static bool throws(F f) { try { f(); } catch (...) { return true; } return false; }
typedef MPI_Manager M;
static int want_rank, want_size, group;
// data of every task is known on every task: element i of task r
template<class T> static T val(int r, int i);
static bool fixed(int i) { return i && vp_param("WHAT", 1) == 2; } // reductions: one symbolic value per task, so that comparisons do not multiply the paths
template<> double val<double>(int r, int i) { if (fixed(i)) return ((r * 5 + i * 3 + group) % 7) * 1.25 - 3; return vp_real(Name("v%ld_%ld", r + 100 * group, i), -5, 5); }
template<> float val<float>(int r, int i) { if (fixed(i)) return ((r * 5 + i * 3 + group) % 7) * 1.25f - 3; return vp_realf(Name("v%ld_%ld", r + 100 * group, i), -5, 5); }
template<class T> static T ival(int r, int i, long big) { if (fixed(i) || i == 1) return T((r + 2 * i + group) % 3 == 1 ? T(0) + T(r + 2) : T(big - r)); return T(vp_int(Name("v%ld_%ld", r + 100 * group, i), T(-1) < T(0) ? -200 : 0, 200)); }
template<> int val<int>(int r, int i) { return ival<int>(r, i, fixed(i) ? -3 : -2147483000); }
template<> long val<long>(int r, int i) { return ival<long>(r, i, fixed(i) ? -3 : -9000000000000000000L); }
template<> long long val<long long>(int r, int i) { return ival<long long>(r, i, fixed(i) ? -4 : 9000000000000000000L); }
template<> unsigned val<unsigned>(int r, int i) { return ival<unsigned>(r, i, 4294967295L); }
template<> unsigned long val<unsigned long>(int r, int i) { return ival<unsigned long>(r, i, -1); }
template<> unsigned long long val<unsigned long long>(int r, int i) { return ival<unsigned long long>(r, i, -1); }
template<> char val<char>(int r, int i) { return char(17 * r + 5 * i - 40 + group); }
template<> long double val<long double>(int r, int i) { return 17 * r + 5 * i - 40.25L + group; }
template<class T> static arr<T> vec(int r, int n) { arr<T> a(n); for (int i = 0; i < n; ++i) a[i] = val<T>(r, i); return a; }
static int cnt(int r) { static const int c[] = {2, 3, 1, 4}; int k = int(vp_param("CNT", 0)); return k == 1 ? 1 : k == 2 ? (r == 1 ? 0 : c[r]) : k == 3 ? (r == 0 ? 0 : c[r]) : c[r]; }
template<class T> static void p2p(M &m) {
    int R = m.num_ranks(), me = m.rank(), n = int(vp_param("N", 3)); if (R == 1) return;
    // ring with blocking calls, even ranks send first
    for (int sh = 1; sh < R; ++sh) {
        int to = (me + sh) % R, from = (me + R - sh) % R; arr<T> o = vec<T>(me, n), in(n, T(9)), w = vec<T>(from, n); T so = val<T>(me, 7), si = T(9), sw = val<T>(from, 7);
        m.sendrecv(o, to, in, from); for (int i = 0; i < n; ++i) { vp_assert(in[i] == w[i], "sendrecv delivers the data of the source"); vp_assert(o[i] == val<T>(me, i), "sendrecv keeps the data sent"); }
        m.sendrecv(so, to, si, from); vp_assert(si == sw, "sendrecv of one value"); 
        m.sendrecv_replace(o, to, from); for (int i = 0; i < n; ++i) vp_assert(o[i] == w[i], "sendrecv_replace delivers the data of the source"); m.sendrecv_replace(so, to, from); vp_assert(so == sw, "sendrecv_replace of one value");
    }
    { arr<T> o = vec<T>(me, n), in(n, T(9)); m.sendrecv(o, me, in, me); for (int i = 0; i < n; ++i) vp_assert(in[i] == o[i], "sendrecv with oneself"); m.sendrecv_replace(in, me, me); for (int i = 0; i < n; ++i) vp_assert(in[i] == o[i], "sendrecv_replace with oneself"); }
    if (me == 0) for (int r = 1; r < R; ++r) { m.send(vec<T>(0, n), r); m.send(val<T>(0, 5), r); arr<T> b(n, T(9)); m.recv(b, r); for (int i = 0; i < n; ++i) vp_assert(b[i] == val<T>(r, i), "recv"); T x; m.recv(x, r); vp_assert(x == val<T>(r, 6), "recv of one value"); }
    else { arr<T> b(n, T(9)); m.recv(b, 0); for (int i = 0; i < n; ++i) vp_assert(b[i] == val<T>(0, i), "recv"); T x; m.recv(x, 0); vp_assert(x == val<T>(0, 5), "recv of one value"); m.send(vec<T>(me, n), 0); m.send(val<T>(me, 6), 0); }
}
template<class T> static void coll(M &m) {
    int R = m.num_ranks(), me = m.rank(), n = int(vp_param("N", 3)); const arr<T> own = vec<T>(me, n);
    for (int root = 0; root < R; ++root) {
        arr<T> b = own; m.bcast(b, root); for (int i = 0; i < n; ++i) vp_assert(b[i] == val<T>(root, i), "bcast"); T x = val<T>(me, 4); m.bcast(x, root); vp_assert(x == val<T>(root, 4), "bcast of one value");
        T g = val<T>(me, 3); if (me == root) { arr<T> o(1); m.gather_m(g, o, root); vp_assert(int(o.size()) == R, "gather gives one value per task"); for (int r = 0; r < R; ++r) vp_assert(o[r] == val<T>(r, 3), "gather"); } else m.gather_s(g, root);
    }
    arr<T> in = vec<T>(me, cnt(me)), out(2, T(9)); m.gatherv(in, out); if (m.master()) { int k = 0; for (int r = 0; r < R; ++r) for (int i = 0; i < cnt(r); ++i, ++k) vp_assert(k < int(out.size()) && out[k] == val<T>(r, i), "gatherv appends the data of the tasks"); vp_assert(k == int(out.size()), "gatherv gives all data"); }
    arr2<T> i2(cnt(me) > 0 ? cnt(me) : 1, 2), o2; for (tsize i = 0; i < i2.size1(); ++i) for (tsize j = 0; j < 2; ++j) i2[i][j] = val<T>(me, int(2 * i + j)); if (m.master()) { m.gatherv_m(i2, o2); tsize k = 0; for (int r = 0; r < R; ++r) for (int i = 0; i < (cnt(r) > 0 ? cnt(r) : 1); ++i, ++k) for (int j = 0; j < 2; ++j) vp_assert(k < o2.size1() && o2[k][j] == val<T>(r, 2 * i + j), "gatherv of rows"); vp_assert(k == o2.size1() && o2.size2() == 2, "gatherv of rows gives all data"); } else m.gatherv_s(i2);
    m.allgather(own, out); vp_assert(int(out.size()) == n * R, "allgather gives all data"); for (int r = 0; r < R; ++r) for (int i = 0; i < n; ++i) vp_assert(out[r * n + i] == val<T>(r, i), "allgather"); m.allgather(val<T>(me, 3), out); vp_assert(int(out.size()) == R, "allgather gives one value per task"); for (int r = 0; r < R; ++r) vp_assert(out[r] == val<T>(r, 3), "allgather of one value");
    // all to all: k values for every task
    int k = 2; in.alloc(R * k); for (int i = 0; i < R * k; ++i) in[i] = val<T>(me, i); m.all2all(in, out); vp_assert(int(out.size()) == R * k, "all2all gives all data"); for (int r = 0; r < R; ++r) for (int i = 0; i < k; ++i) vp_assert(out[r * k + i] == val<T>(r, me * k + i), "all2all");
    if (R > 1) { arr<T> bad(R * k + 1, T(1)); vp_assert(throws([&] { m.all2all(bad, out); }), "all2all refuses data that cannot be shared evenly"); }
    // task r sends (r+q+CNT)%3 values to task q
    auto ct = [&](int r, int q) { return int((r + q + vp_param("CNT", 0)) % 3); }; arr<int> ni(R), di(R), no, d2(R), n2(R); int tot = 0, t2 = 0; for (int q = 0; q < R; ++q) { ni[q] = ct(me, q); di[q] = tot; tot += ni[q]; n2[q] = ct(q, me); d2[q] = t2; t2 += n2[q]; }
    in.alloc(tot); for (int i = 0; i < tot; ++i) in[i] = val<T>(me, i);
    for (int v = 0; v < 2; ++v) { out.alloc(1); if (v) m.all2allv(in, ni, di, out, n2, d2, t2); else m.all2allv_easy(in, ni, out, no); vp_assert(int(out.size()) == t2, "all2allv gives all data"); int p = 0; for (int r = 0; r < R; ++r) { if (!v) vp_assert(no[r] == ct(r, me), "counts of the received data"); int off = 0; for (int q = 0; q < me; ++q) off += ct(r, q); for (int i = 0; i < ct(r, me); ++i, ++p) vp_assert(out[p] == val<T>(r, off + i), "all2allv"); } }
    { arr<int> w(R + 1, 1); vp_assert(throws([&] { m.all2allv_easy(in, w, out, no); }), "wrong number of counts is refused"); }
    int64 lo, hi; m.calcShare(vp_int("glo", -1000, 1000), 2000, lo, hi); arr<long> lh; m.allgather(long(hi), lh); vp_assert(lo == (me ? lh[me - 1] : vp_int("glo", -1000, 1000)) && lh[R - 1] == 2000, "calcShare");
    m.barrier(); vp_assert(R == want_size && me == want_rank && m.master() == (me == 0), "task numbers");
}
template<class T> static T red(M::redOp op, int R, int i) { T s = val<T>(0, i); for (int r = 1; r < R; ++r) { T v = val<T>(r, i); if (op == M::Sum) s = T(s + v); else if (op == M::Prod) s = T(s * v); else if (op == M::Min) { if (v < s) s = v; } else if (s < v) s = v; } return s; }
template<class T> static void reds(M &m) {
    static const M::redOp ops[] = {M::Sum, M::Min, M::Max, M::Prod}; M::redOp op = ops[vp_choose("op", 0, vp_param("OPS", 3))]; int R = m.num_ranks(), me = m.rank(), n = int(vp_param("N", 2)); const arr<T> own = vec<T>(me, n); arr<T> want(n); for (int i = 0; i < n; ++i) want[i] = red<T>(op, R, i);
    auto same = [&](T a, T b) { vp_assert_near(double(a), double(b), 1e-6, "reduction"); };
    arr<T> out; m.allreduce(own, out, op); vp_assert(int(out.size()) == n, "allreduce keeps the size"); for (int i = 0; i < n; ++i) same(out[i], want[i]); out = own; m.allreduce(out, op); for (int i = 0; i < n; ++i) same(out[i], want[i]); T x, y = own[0]; m.allreduce(own[0], x, op); same(x, want[0]); m.allreduce(y, op); same(y, want[0]);
    for (int root = 0; root < R; ++root) { arr<T> o(1, T(9)); m.reduce(own, o, op, root); if (me == root) { vp_assert(int(o.size()) == n, "reduce keeps the size"); for (int i = 0; i < n; ++i) same(o[i], want[i]); } else vp_assert(o.size() == 1 && o[0] == T(9), "only the root gets the result"); T z = T(9); m.reduce(own[0], z, op, root); if (me == root) same(z, want[0]); else vp_assert(z == T(9), "only the root gets the result"); }
    for (int i = 0; i < n; ++i) vp_assert(own[i] == val<T>(me, i), "the input is kept");
}
enum { P2P, COLL, RED };
template<class T> static void run(M &m) { switch (vp_param("WHAT", COLL)) { case P2P: p2p<T>(m); break; case COLL: coll<T>(m); break; default: reds<T>(m); } }
extern "C" void msg_main(void) {
    vp_barrier(); unsigned long live = vp_heap_live(); vp_barrier(); { Group tg(int(vp_param("COMM", 0))); want_rank = tg.rank; want_size = tg.size; group = tg.id; if (tg.in()) { M m0, mc(tg.comm), &m = vp_param("COMM", 0) ? mc : m0; switch (vp_choose("type", 0, vp_param("WHAT", COLL) == RED ? 7 : 9)) { case 0: run<double>(m); break; case 1: run<float>(m); break; case 2: run<int>(m); break; case 3: run<long>(m); break; case 4: run<long long>(m); break; case 5: run<unsigned>(m); break; case 6: run<unsigned long>(m); break; case 7: run<unsigned long long>(m); break; case 8: run<char>(m); break; case 9: run<long double>(m); break; } } }
    vp_barrier(); vp_assert(vp_heap_live() == live, "all memory is released"); vp_reach("done");
}
