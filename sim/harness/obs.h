// Reference observables of the spin models, evaluated configuration by configuration by brute force.
#ifndef HARNESS_OBS_H
#define HARNESS_OBS_H
#include "models.h"
namespace hx {
enum class MK { TFIM, TFIM_P, XXZ, J1J2, J1J2_P, TRI, TRIJ };
struct ModelPar { double a = 1, b = 1, c = 0, d = 0, p = 0; };
inline RefH ref_of(MK k, size_t Ly, size_t Lx, const ModelPar &m) {
  switch (k) {
    case MK::TFIM: return ref_tfim(Ly, Lx, false, m.a);
    case MK::TFIM_P: return ref_tfim(Ly, Lx, true, m.a);
    case MK::XXZ: return ref_xxz(Ly, Lx, false, m.a, m.b, 0, 0, m.p);
    case MK::J1J2: return ref_xxz(Ly, Lx, false, m.a, m.b, m.c, m.d, m.p);
    case MK::J1J2_P: return ref_xxz(Ly, Lx, true, m.a, m.b, m.c, m.d, m.p);
    case MK::TRI: return ref_tri(Ly, Lx, 0);
    default: return ref_tri(Ly, Lx, m.c);
  }
}
using Obs = std::map<std::string, std::vector<Z>>;
template<typename E>
Obs ref_obs(MK k, const ModelPar &m, RefState<E> &rs, const std::vector<size_t> &c) {
  Obs o; const size_t Ly = rs.Ly, Lx = rs.Lx, N = Ly * Lx;
  auto id = [&](size_t r, size_t q) { return (r % Ly) * Lx + q % Lx; };
  const Z p = rs.amp(c);
  o["energy"] = {rs.eloc(c)};
  for (size_t i = 0; i < N; ++i) o["spin_z"].push_back(double(c[i]) - 0.5);
  auto ratio_swap = [&](size_t a, size_t b) { auto d = c; std::swap(d[a], d[b]); return std::conj(rs.amp(d) / p); };
  auto bond = [&](size_t a, size_t b, double jz, double jxy) -> Z { return c[a] == c[b] ? Z(0.25 * jz) : Z(-0.25 * jz) + 0.5 * jxy * ratio_swap(a, b); };
  const bool pbc = k == MK::TFIM_P || k == MK::J1J2_P;
  if (k == MK::TFIM || k == MK::TFIM_P) {
    for (size_t i = 0; i < N; ++i) { auto d = c; d[i] = 1 - d[i]; o["sigma_x"].push_back(std::conj(rs.amp(d) / p)); }
  } else {
    double jz = k == MK::TRI || k == MK::TRIJ ? 1 : m.a, jxy = k == MK::TRI || k == MK::TRIJ ? 1 : m.b;
    for (size_t r = 0; r < Ly; ++r) for (size_t q = 0; q < Lx; ++q) {
      if (pbc || q + 1 < Lx) o["bond_energy_h"].push_back(bond(id(r, q), id(r, q + 1), jz, jxy));
      if (pbc || r + 1 < Ly) o["bond_energy_v"].push_back(bond(id(r, q), id(r + 1, q), jz, jxy));
      if (pbc || (r + 1 < Ly && q + 1 < Lx)) {
        if (k == MK::J1J2 || (k == MK::J1J2_P && (m.c != 0 || m.d != 0))) o["bond_energy_dr"].push_back(bond(id(r, q), id(r + 1, q + 1), m.c, m.d));
        if (k == MK::J1J2) o["bond_energy_ur"].push_back(bond(id(r + 1, q), id(r, q + 1), m.c, m.d));
        if (k == MK::J1J2_P && (m.c != 0 || m.d != 0)) o["bond_energy_ur"].push_back(bond(id(r, q), id(r + 1, q + Lx - 1), m.c, m.d));
        if (k == MK::TRI || k == MK::TRIJ) o["bond_energy_ur"].push_back(bond(id(r + 1, q), id(r, q + 1), 1, 1));
      }
    }
    if (!pbc && Lx / 2 > 0) {
      size_t s1 = id(Ly / 2, Lx / 4); std::vector<Z> v, z(Lx / 2, Z(0));
      for (size_t i = 1; i <= Lx / 2; ++i) { size_t s2 = id(Ly / 2, Lx / 4 + i); v.push_back(c[s1] == c[s2] ? Z(0) : ratio_swap(s1, s2)); }
      o["SmSp_row"] = c[s1] ? v : z; o["SpSm_row"] = c[s1] ? z : v;
    }
  }
  if (k == MK::XXZ || k == MK::TRI || k == MK::TRIJ)
    for (size_t i = 0; i < N; ++i) for (size_t j = i; j < N; ++j) o["SzSz_all2all"].push_back((double(c[i]) - 0.5) * (double(c[j]) - 0.5));
  if (k == MK::TFIM || k == MK::TFIM_P || k == MK::TRI || k == MK::TRIJ)
    for (size_t i = 1; i <= Lx / 2; ++i) o["SzSz_row"].push_back((double(c[id(Ly / 2, Lx / 4)]) - 0.5) * (double(c[id(Ly / 2, Lx / 4 + i)]) - 0.5));
  return o;
}
}
#endif
