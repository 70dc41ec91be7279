// Deterministic stand-in for the Pythia 8 API that SMASH includes.
//
// Pythia 8.316 is not installed in the sandbox, so string fragmentation cannot
// run.  This header declares just enough of the API for every translation unit
// of SMASH to compile.  All simulated worlds set `Strings: False`, so nothing in
// here is reached; reaching it aborts the process loudly.
#ifndef VERIF_STUB_PYTHIA8_H
#define VERIF_STUB_PYTHIA8_H

#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <map>
#include <memory>
#include <string>
#include <vector>

namespace Pythia8 {

[[noreturn]] inline void stub_reached(const char *what) {
  std::fprintf(stderr, "Pythia stub reached: %s\n", what);
  std::abort();
}

class Vec4 {
 public:
  Vec4(double x = 0., double y = 0., double z = 0., double t = 0.)
      : x_(x), y_(y), z_(z), t_(t) {}
  double px() const { return x_; }
  double py() const { return y_; }
  double pz() const { return z_; }
  double e() const { return t_; }
  double m2Calc() const { return t_ * t_ - x_ * x_ - y_ * y_ - z_ * z_; }
  double mCalc() const {
    const double m2 = m2Calc();
    return m2 >= 0. ? std::sqrt(m2) : -std::sqrt(-m2);
  }
  double pAbs() const { return std::sqrt(x_ * x_ + y_ * y_ + z_ * z_); }
  double pAbs2() const { return x_ * x_ + y_ * y_ + z_ * z_; }
  void rescale3(double f) { x_ *= f; y_ *= f; z_ *= f; }
  Vec4 operator+(const Vec4 &o) const {
    return Vec4(x_ + o.x_, y_ + o.y_, z_ + o.z_, t_ + o.t_);
  }
  Vec4 operator-(const Vec4 &o) const {
    return Vec4(x_ - o.x_, y_ - o.y_, z_ - o.z_, t_ - o.t_);
  }
  Vec4 operator-() const { return Vec4(-x_, -y_, -z_, -t_); }
  Vec4 &operator+=(const Vec4 &o) { return *this = *this + o; }
  Vec4 &operator-=(const Vec4 &o) { return *this = *this - o; }
  Vec4 operator*(double f) const {
    return Vec4(x_ * f, y_ * f, z_ * f, t_ * f);
  }
  Vec4 operator/(double f) const { return *this * (1. / f); }
  friend Vec4 operator*(double f, const Vec4 &v) { return v * f; }

 private:
  double x_, y_, z_, t_;
};

class Particle {
 public:
  int id() const { return id_; }
  void id(int i) { id_ = i; }
  int status() const { return status_; }
  void status(int s) { status_ = s; }
  int col() const { return col_; }
  int acol() const { return acol_; }
  void cols(int c, int a) { col_ = c; acol_ = a; }
  Vec4 p() const { return p_; }
  void p(const Vec4 &v) { p_ = v; }
  double m() const { return m_; }
  void m(double x) { m_ = x; }
  double e() const { return p_.e(); }
  void e(double x) { p_ = Vec4(p_.px(), p_.py(), p_.pz(), x); }
  double px() const { return p_.px(); }
  double py() const { return p_.py(); }
  double pz() const { return p_.pz(); }
  void px(double x) { p_ = Vec4(x, p_.py(), p_.pz(), p_.e()); }
  void py(double x) { p_ = Vec4(p_.px(), x, p_.pz(), p_.e()); }
  void pz(double x) { p_ = Vec4(p_.px(), p_.py(), x, p_.e()); }
  double pAbs() const { return p_.pAbs(); }
  double pAbs2() const { return p_.pAbs2(); }
  double eCalc() const { return std::sqrt(std::abs(m_ * m_ + p_.pAbs2())); }
  double y() const {
    return 0.5 * std::log((p_.e() + p_.pz()) / (p_.e() - p_.pz()));
  }
  bool isFinal() const { return status_ > 0; }
  bool isParton() const { stub_reached("Particle::isParton"); }
  bool isQuark() const { stub_reached("Particle::isQuark"); }
  bool isDiquark() const { stub_reached("Particle::isDiquark"); }
  bool isGluon() const { stub_reached("Particle::isGluon"); }
  bool isHadron() const { stub_reached("Particle::isHadron"); }

  int id_ = 0, status_ = 0, col_ = 0, acol_ = 0;
  Vec4 p_;
  double m_ = 0.;
};

class ParticleData {
 public:
  bool isParticle(int) const { stub_reached("ParticleData::isParticle"); }
  double m0(int) const { stub_reached("ParticleData::m0"); }
  void m0(int, double) { stub_reached("ParticleData::m0"); }
  double mSel(int) const { stub_reached("ParticleData::mSel"); }
  double mWidth(int) const { stub_reached("ParticleData::mWidth"); }
  void mWidth(int, double) { stub_reached("ParticleData::mWidth"); }
  int nQuarksInCode(int, int) const { stub_reached("nQuarksInCode"); }
  int baryonNumberType(int) const { stub_reached("baryonNumberType"); }
  int colType(int) const { stub_reached("colType"); }
  int charge(int) const { stub_reached("charge"); }
  int chargeType(int) const { stub_reached("chargeType"); }
  bool isBaryon(int) const { stub_reached("isBaryon"); }
  bool isQuark(int) const { stub_reached("isQuark"); }
  bool isDiquark(int) const { stub_reached("isDiquark"); }
  bool isOctetHadron(int) const { stub_reached("isOctetHadron"); }
};

class Event {
 public:
  void init(const std::string &, ParticleData *) {}
  void reset() { entry_.assign(1, Particle()); }
  void clear() { entry_.clear(); }
  int size() const { return static_cast<int>(entry_.size()); }
  Particle &operator[](int i) { return entry_[i]; }
  const Particle &operator[](int i) const { return entry_[i]; }
  int append(int id, int status, int col, int acol, Vec4 p, double m = 0.) {
    Particle q;
    q.id_ = id; q.status_ = status; q.col_ = col; q.acol_ = acol;
    q.p_ = p; q.m_ = m;
    entry_.push_back(q);
    return size() - 1;
  }
  int append(const Particle &q) { entry_.push_back(q); return size() - 1; }
  void remove(int a, int b) {
    entry_.erase(entry_.begin() + a, entry_.begin() + b + 1);
  }
  void popBack(int n = 1) { entry_.resize(entry_.size() - n); }
  void clearJunctions() {}
  void listJunctions() const {}
  int sizeJunction() const { return 0; }
  int appendJunction(int, int, int, int) { stub_reached("appendJunction"); }
  void eraseJunction(int) { stub_reached("eraseJunction"); }
  int kindJunction(int) const { stub_reached("kindJunction"); }
  int colJunction(int, int) const { stub_reached("colJunction"); }
  void list(bool = false, bool = false) const {}

 private:
  std::vector<Particle> entry_;
};

class Info {};

class Rndm {
 public:
  void init(int) {}
};

class Settings {
 public:
  void flag(const std::string &, bool) {}
  void mode(const std::string &, int) {}
  void parm(const std::string &, double) {}
};

class FlavContainer {
 public:
  explicit FlavContainer(int i = 0, int r = 0, int np = 0, int p = 0, int v = 0)
      : id(i), rank(r), nPop(np), idPop(p), idVtx(v) {}
  void anti(const FlavContainer &o) { *this = o; id = -o.id; }
  bool isDiquark() const { stub_reached("FlavContainer::isDiquark"); }
  int id, rank, nPop, idPop, idVtx;
};

class StringFlav {
 public:
  void initInfoPtr(Info &) {}
  void init() {}
  FlavContainer pick(FlavContainer &) { stub_reached("StringFlav::pick"); }
  int combine(FlavContainer &, FlavContainer &) { stub_reached("combine"); }
  int combineId(int, int, bool = true) { stub_reached("combineId"); }
};

class SigmaTotal {
 public:
  void initInfoPtr(Info &) {}
  void init() {}
  bool calc(int, int, double) { stub_reached("SigmaTotal::calc"); }
  double sigmaTot() const { stub_reached("sigmaTot"); }
  double sigmaEl() const { stub_reached("sigmaEl"); }
  double sigmaAX() const { stub_reached("sigmaAX"); }
  double sigmaXB() const { stub_reached("sigmaXB"); }
  double sigmaXX() const { stub_reached("sigmaXX"); }
  double sigmaAXB() const { stub_reached("sigmaAXB"); }
};

class Pythia {
 public:
  explicit Pythia(const std::string & = "", bool = true) {
    stub_reached("Pythia::Pythia (string fragmentation requested)");
  }
  bool readString(const std::string &, bool = true) { return true; }
  bool init() { return true; }
  bool next() { stub_reached("Pythia::next"); }
  bool next(double) { stub_reached("Pythia::next"); }
  bool forceHadronLevel(bool = true) { stub_reached("forceHadronLevel"); }
  bool setKinematics(double) { stub_reached("setKinematics"); }
  double parm(const std::string &) { stub_reached("parm"); }
  Event event;
  const Info info{};
  Rndm rndm;
  Settings settings;
  ParticleData particleData;
};

}  // namespace Pythia8
#endif
