// A small BLACS / ScaLAPACK over the simulated MPI, with the argument checks of the real library: process grids, block-cyclic
// descriptors, redistribution between grids and the symmetric eigen-problem (which reads the upper triangle only).
#pragma once
#include <complex>
#include <cstring>
#include <map>
#include <vector>
#include "mpi.h"
#include "sim.h"
#include "qlten/framework/hp_numeric/backend_selector.h"
namespace sca {
struct Grid { MPI_Comm comm; int P, Q, r, c; bool open; };
struct Tab { std::vector<MPI_Comm> sys; std::vector<Grid> grid; };
inline Tab *&tab() { static Tab *t = nullptr; if (!t) t = new Tab; return t; }         // per rank: the simulator swaps the statics
inline Grid &grid(int h) { SIM_CHECK(h >= 1000 && size_t(h - 1000) < tab()->grid.size() && tab()->grid[size_t(h - 1000)].open, "a BLACS routine is given the invalid context %d", h); return tab()->grid[size_t(h - 1000)]; }
inline int roc(int n, int nb, int p, int src, int P) { const int d = (P + p - src) % P, nblk = n / nb; int k = (nblk / P) * nb; const int ex = nblk % P; if (d < ex) k += nb; else if (d == ex) k += n % nb; return k; }
inline int l2g(int l, int nb, int p, int src, int P) { return P * nb * (l / nb) + l % nb + ((P + p - src) % P) * nb; }
template<typename E> MPI_Datatype ty() { if constexpr (sizeof(E) == 8) return MPI_DOUBLE; else return MPI_CXX_DOUBLE_COMPLEX; }
// The whole matrix, on every process of `com`, from its distributed pieces.
template<typename E> std::vector<E> collect(const E *A, const int *d, MPI_Comm com) {
  int n; MPI_Comm_size(com, &n); auto &g = grid(d[1]); const int m = d[2], k = d[3]; const bool in = g.r >= 0;
  const int lr = in ? roc(m, d[4], g.r, d[6], g.P) : 0, lc = in ? roc(k, d[5], g.c, d[7], g.Q) : 0;
  std::vector<E> loc(size_t(lr) * size_t(lc)); for (int j = 0; j < lc; ++j) for (int i = 0; i < lr; ++i) loc[size_t(i + j * lr)] = A[size_t(i) + size_t(j) * size_t(d[8])];
  int me[4] = {in ? g.r : -1, g.c, lr, lc}; std::vector<int> all(size_t(4 * n)); MPI_Allgather(me, 4, MPI_INT, all.data(), 4, MPI_INT, com);
  std::vector<int> cnt(n), dis(n); int tot = 0; for (int p = 0; p < n; ++p) { cnt[p] = all[4 * p + 2] * all[4 * p + 3]; dis[p] = tot; tot += cnt[p]; }
  std::vector<E> buf(size_t(tot) + 1), F(size_t(m) * size_t(k)); MPI_Allgatherv(loc.data(), int(loc.size()), ty<E>(), buf.data(), cnt.data(), dis.data(), ty<E>(), com);
  for (int p = 0; p < n; ++p) if (all[4 * p] >= 0) for (int j = 0; j < all[4 * p + 3]; ++j) for (int i = 0; i < all[4 * p + 2]; ++i)
    F[size_t(l2g(i, d[4], all[4 * p], d[6], g.P)) + size_t(l2g(j, d[5], all[4 * p + 1], d[7], g.Q)) * size_t(m)] = buf[size_t(dis[p] + i + j * all[4 * p + 2])];
  return F;
}
template<typename E> void scatter(const std::vector<E> &F, E *B, const int *d) {
  auto &g = grid(d[1]); if (g.r < 0) return; const int lr = roc(d[2], d[4], g.r, d[6], g.P), lc = roc(d[3], d[5], g.c, d[7], g.Q);
  for (int j = 0; j < lc; ++j) for (int i = 0; i < lr; ++i) B[size_t(i) + size_t(j) * size_t(d[8])] = F[size_t(l2g(i, d[4], g.r, d[6], g.P)) + size_t(l2g(j, d[5], g.c, d[7], g.Q)) * size_t(d[2])];
}
template<typename E> void gemr2d(int m, int n, const E *A, int ia, int ja, const int *da, E *B, int ib, int jb, const int *db, int ctxt) {
  SIM_CHECK(ia == 1 && ja == 1 && ib == 1 && jb == 1 && m == da[2] && n == da[3] && m == db[2] && n == db[3], "internal: the stub redistributes whole matrices only");
  scatter(collect(A, da, grid(ctxt).comm), B, db);
}
template<typename E> int eig(const char *jobz, const char *uplo, int n, E *A, const int *da, double *W, E *Z, const int *dz) {
  SIM_CHECK(*jobz == 'V' && da[2] == n && da[3] == n && dz[2] == n && dz[3] == n && da[4] == da[5], "pXsyev is called with unsupported arguments");
  auto &g = grid(da[1]); auto F = collect(A, da, g.comm); const bool up = *uplo == 'U';
  for (int j = 0; j < n; ++j) for (int i = 0; i < n; ++i) if (up ? i > j : i < j) { if constexpr (sizeof(E) == 8) F[size_t(i + j * n)] = F[size_t(j + i * n)]; else F[size_t(i + j * n)] = std::conj(F[size_t(j + i * n)]); }
  int info = 0; for (auto &x : F) if (!std::isfinite(std::abs(x))) info = 1;
  std::vector<double> w(size_t(n) + 1, 0); int me; MPI_Comm_rank(g.comm, &me);
  if (!info && me == 0) { if constexpr (sizeof(E) == 8) info = LAPACKE_dsyev(LAPACK_COL_MAJOR, 'V', 'U', n, F.data(), n, w.data()); else info = LAPACKE_zheev(LAPACK_COL_MAJOR, 'V', 'U', n, F.data(), n, w.data()); }
  MPI_Bcast(&info, 1, MPI_INT, 0, g.comm); if (info) return info;
  MPI_Bcast(F.data(), n * n, ty<E>(), 0, g.comm); MPI_Bcast(w.data(), n, MPI_DOUBLE, 0, g.comm);
  if (g.r >= 0) { const int lr = roc(n, da[4], g.r, da[6], g.P), lc = roc(n, da[5], g.c, da[7], g.Q); for (int j = 0; j < lc; ++j) for (int i = 0; i < lr; ++i) A[size_t(i) + size_t(j) * size_t(da[8])] = E(NAN); }   // A is destroyed
  std::memcpy(W, w.data(), size_t(n) * 8); scatter(F, Z, dz); return 0;
}
}
using sca_z = std::complex<double>;
extern "C" {
void Cblacs_pinfo(int *me, int *n) { MPI_Comm_rank(MPI_COMM_WORLD, me); MPI_Comm_size(MPI_COMM_WORLD, n); }
void Cblacs_get(int, int, int *v) { sca::tab()->sys.push_back(MPI_COMM_WORLD); *v = int(sca::tab()->sys.size()) - 1; }
int Csys2blacs_handle(MPI_Comm c) { sca::tab()->sys.push_back(c); return int(sca::tab()->sys.size()) - 1; }
void Cblacs_gridinit(int *ctxt, const char *order, int P, int Q) {
  SIM_CHECK(*ctxt >= 0 && size_t(*ctxt) < sca::tab()->sys.size(), "Cblacs_gridinit is given the invalid system handle %d", *ctxt);
  sca::Grid g{}; MPI_Comm_dup(sca::tab()->sys[size_t(*ctxt)], &g.comm); int me, n; MPI_Comm_rank(g.comm, &me); MPI_Comm_size(g.comm, &n); SIM_CHECK(P * Q <= n && P > 0 && Q > 0, "Cblacs_gridinit asks for a %d x %d grid on %d processes", P, Q, n);
  const bool row = order[0] == 'R' || order[0] == 'r'; g.P = P; g.Q = Q; g.open = true; if (me < P * Q) { g.r = row ? me / Q : me % P; g.c = row ? me % Q : me / P; } else g.r = g.c = -1;
  sca::tab()->grid.push_back(g); *ctxt = 1000 + int(sca::tab()->grid.size()) - 1;
}
void Cblacs_gridinfo(int ctxt, int *P, int *Q, int *r, int *c) { auto &g = sca::grid(ctxt); *P = g.P; *Q = g.Q; *r = g.r; *c = g.c; }
void Cblacs_gridexit(int ctxt) { auto &g = sca::grid(ctxt); MPI_Comm_free(&g.comm); g.open = false; }
int numroc_(const int *n, const int *nb, const int *p, const int *s, const int *P) { return sca::roc(*n, *nb, *p, *s, *P); }
int indxl2g_(const int *l, const int *nb, const int *p, const int *s, const int *P) { return sca::l2g(*l - 1, *nb, *p, *s, *P) + 1; }
void descinit_(int *d, const int *m, const int *n, const int *mb, const int *nb, const int *rs, const int *cs, const int *ctxt, const int *lld, int *info) {
  auto &g = sca::grid(*ctxt); *info = *m < 0 ? -2 : *n < 0 ? -3 : *mb < 1 ? -4 : *nb < 1 ? -5 : (*rs < 0 || *rs >= g.P) ? -6 : (*cs < 0 || *cs >= g.Q) ? -7 : *lld < std::max(1, sca::roc(*m, *mb, g.r, *rs, g.P)) ? -9 : 0;
  const int v[9] = {1, *ctxt, *m, *n, *mb, *nb, *rs, *cs, *lld}; std::memcpy(d, v, sizeof v);
}
void pdgemr2d_(const int *m, const int *n, const double *A, const int *ia, const int *ja, const int *da, double *B, const int *ib, const int *jb, const int *db, const int *c) { sca::gemr2d(*m, *n, A, *ia, *ja, da, B, *ib, *jb, db, *c); }
void pzgemr2d_(const int *m, const int *n, const void *A, const int *ia, const int *ja, const int *da, void *B, const int *ib, const int *jb, const int *db, const int *c) { sca::gemr2d(*m, *n, (const sca_z *)A, *ia, *ja, da, (sca_z *)B, *ib, *jb, db, *c); }
void pdsyev_(const char *jz, const char *ul, const int *n, double *A, const int *, const int *, const int *da, double *W, double *Z, const int *, const int *, const int *dz, double *work, const int *lwork, int *info) {
  const int need = 5 * *n + 64; if (*lwork == -1) { work[0] = need; *info = 0; return; } if (*lwork < need) { *info = -14; return; }
  for (int i = 0; i < need; ++i) work[i] = NAN; *info = sca::eig(jz, ul, *n, A, da, W, Z, dz);
}
void pzheev_(const char *jz, const char *ul, const int *n, void *A, const int *, const int *, const int *da, double *W, void *Z, const int *, const int *, const int *dz, void *work, const int *lwork, double *rwork, const int *lrwork, int *info) {
  const int need = 4 * *n + 64, rneed = 4 * *n; if (*lwork == -1 || *lrwork == -1) { *(sca_z *)work = need; rwork[0] = rneed; *info = 0; return; } if (*lwork < need) { *info = -14; return; } if (*lrwork < rneed) { *info = -16; return; }
  for (int i = 0; i < need; ++i) ((sca_z *)work)[i] = NAN; for (int i = 0; i < rneed; ++i) rwork[i] = NAN; *info = sca::eig(jz, ul, *n, (sca_z *)A, da, W, (sca_z *)Z, dz);
}
}
