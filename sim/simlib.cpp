// API harness: drives live model objects through their public interface from a script file (argv[1]).
// One line = one request; the answer is printed as "R <line> <count> <values...>" with 17 significant digits.
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <vector>
#include "definitions.h"
#include "definitions_multimage.h"
#include "model_object.h"
#include "model_object_multimage.h"
#include "add_functions.h"
#include "config_file_parser.h"
#include "setup_model_object.h"
#include "options_base.h"
#include "image_io.h"
#include "psf_oversampling_info.h"
#include "mersenne_twister.h"
#include "mp_enorm.h"
#include "bootstrap_errors.h"
#include "param_struct.h"
#include "levmar_fit.h"

volatile sig_atomic_t stopSignal_flag = 0;
typedef std::map<std::string, std::string> KV;

struct Slot { ModelObject *m; ModelObjectMultImage *mm; std::vector<std::pair<int, int> > dims; std::vector<long> nv; vector<mp_par> info; bool limits, fit; };

static double *image(const std::string &f, int &nx, int &ny) {
  double *p = ReadImageAsVector(f, &nx, &ny);
  if (!p) { fprintf(stderr, "harness: cannot read %s\n", f.c_str()); exit(9); }
  return p;
}

// One single-image model object, built with the same library calls as the programs use.
static ModelObject *makeModel(KV &o, bool fit, vector<mp_par> &info, bool &limits, std::pair<int, int> &dim, ModelObjectMultImage *mm, std::vector<double> *start) {
  std::shared_ptr<OptionsBase> op = std::make_shared<OptionsBase>();
  op->maxThreads = o.count("threads") ? atoi(o["threads"].c_str()) : 1; op->maxThreadsSet = true; op->verbose = 0;
  if (o.count("gain")) op->gain = atof(o["gain"].c_str());
  if (o.count("rn")) op->readNoise = atof(o["rn"].c_str());
  if (o.count("sky")) op->originalSky = atof(o["sky"].c_str());
  if (o.count("exp")) op->expTime = atof(o["exp"].c_str());
  if (o.count("ncomb")) op->nCombined = atoi(o["ncomb"].c_str());
  std::string st = o["stat"];
  if (st == "model") op->useModelForErrors = true;
  if (st == "cash") { op->useCashStatistic = true; op->solver = NMSIMPLEX_SOLVER; }
  if (st == "mlr") op->usePoissonMLR = true;
  int nx = atoi(o["nx"].c_str()), ny = atoi(o["ny"].c_str()), px = 0, py = 0, a, b;
  double *data = 0, *psf = 0, *mask = 0, *err = 0;
  if (o.count("data")) data = image(o["data"], nx, ny);
  if (o.count("psf")) { psf = image(o["psf"], px, py); op->psfImagePresent = true; op->normalizePSF = !o.count("nonorm"); }
  if (o.count("mask")) { mask = image(o["mask"], a, b); op->maskImagePresent = true; if (o.count("maskzero")) op->maskFormat = MASK_ZERO_IS_BAD; }
  if (o.count("noise")) { err = image(o["noise"], a, b); op->noiseImagePresent = true; std::string t = o["etype"]; op->errorType = t == "var" ? WEIGHTS_ARE_VARIANCES : t == "wt" ? WEIGHTS_ARE_WEIGHTS : WEIGHTS_ARE_SIGMAS; }
  std::vector<PsfOversamplingInfo *> over;
  if (o.count("over")) {
    std::stringstream ss(o["over"]); std::string one;
    while (std::getline(ss, one, ';')) {          // file,scale,x1:x2 y1:y2 with '/' for the region comma
      std::stringstream s2(one); std::string f, sc, rg; std::getline(s2, f, ','); std::getline(s2, sc, ','); std::getline(s2, rg, ',');
      for (size_t k = 0; k < rg.size(); k++) if (rg[k] == '/') rg[k] = ',';
      int ox, oy; double *p = image(f, ox, oy);
      over.push_back(new PsfOversamplingInfo(p, ox, oy, atoi(sc.c_str()), rg)); op->psfOversampling = true; op->psfOversampledImagePresent = true;
    }
  }
  vector<int> dims; dims.push_back(nx); dims.push_back(ny); dims.push_back(px); dims.push_back(py); dim = std::make_pair(nx, ny);
  vector<string> fn, fl; vector<int> fs; configOptions co; vector<map<string, string> > ex; vector<double> pl;
  if (ReadConfigFile(o["cfg"], true, fn, fl, pl, info, fs, limits, co, ex) != 0) exit(9);
  ModelObject *m = SetupModelObject(op, dims, data, psf, mask, err, over);
  if (o.count("x0off")) m->AddImageOffsets(atoi(o["x0off"].c_str()), atoi(o["y0off"].c_str()));
  if (AddFunctions(m, fn, fl, fs, !o.count("nosub"), 0, ex) < 0) exit(9);
  if (mm) {
    m->FinalModelSetup(); mm->AddModelObject(m);
    if (start) { vector<string> n2 = fn, l2 = fl; vector<int> s2 = fs; AddFunctions(mm, n2, l2, s2, !o.count("nosub"), 0, ex); mm->FinalModelSetup(); }
  } else if (fit) {
    if (m->FinalSetupForFitting() < 0) exit(9);
    m->AddParameterInfo(info);
  }
  return m;
}

static void answer(int line, const std::vector<double> &v) {
  printf("R %d %zu", line, v.size());
  for (size_t i = 0; i < v.size(); i++) printf(" %.17g", v[i]);
  printf("\n");
}

int main(int argc, char **argv) {
  FILE *f = fopen(argv[1], "r");
  if (!f) return 9;
  std::string text; char buf[4096]; size_t k;
  while ((k = fread(buf, 1, sizeof buf, f)) > 0) text.append(buf, k);
  fclose(f);
  std::map<std::string, Slot> slots; std::map<std::string, std::vector<double> > par;
  std::stringstream all(text); std::string ln; int line = 0;
  while (std::getline(all, ln)) {
    std::stringstream s(ln); std::string op, name, w; s >> op >> name; line++;
    if (op.empty()) continue;
    if (op == "par") { double d; std::vector<double> v; while (s >> w) v.push_back(atof(w.c_str())); par[name] = v; continue; }
    if (op == "seed") { init_genrand(strtoul(name.c_str(), 0, 10)); continue; }
    if (op == "new" || op == "multi") {       // new NAME k=v ... ; multi NAME n then n lines of k=v
      Slot t; t.mm = 0; t.limits = false; int n = 1; std::string first = ln.substr(ln.find(name) + name.size());
      if (op == "multi") { s >> n; t.mm = new ModelObjectMultImage(); }
      t.m = t.mm;
      for (int j = 0; j < n; j++) {
        std::string d = first;
        if (t.mm) { std::getline(all, d); line++; }
        std::stringstream q(d); KV o;
        while (q >> w) { size_t e = w.find('='); o[w.substr(0, e)] = e == std::string::npos ? "" : w.substr(e + 1); }
        if (t.mm && j == 0) { std::shared_ptr<OptionsBase> g = std::make_shared<OptionsBase>(); g->maxThreads = 1; g->maxThreadsSet = true; t.mm->SetupGeneralOptions(g); }
        std::pair<int, int> dim; vector<mp_par> info; std::vector<double> dummy; t.fit = o.count("fit");
        ModelObject *m = makeModel(o, t.fit, info, t.limits, dim, t.mm, j == n - 1 ? &dummy : 0);
        t.dims.push_back(dim); t.info = info;
        if (!t.mm) t.m = m;
        if (t.mm && j == n - 1) {
          if (o["stat"] == "mlr") t.mm->UsePoissonMLR(); else if (o["stat"] == "cash") t.mm->UseCashStatistic();
          if (t.fit && t.mm->FinalSetupForFitting() < 0) return 9;
        }
      }
      slots[name] = t; continue;
    }
    Slot &t = slots[name]; ModelObject *m = t.m;
    if (op == "del") { delete m; slots.erase(name); continue; }
    if (op == "usebs") { if (m->UseBootstrap() < 0) return 9; continue; }
    if (op == "sample") { if (m->MakeBootstrapSample() < 0) return 9; continue; }
    if (op == "stopbs") { m->StopBootstrap(); continue; }
    if (op == "info") { std::vector<double> v; v.push_back(m->GetNParams()); v.push_back(m->GetNFunctions()); v.push_back(m->GetNDataValues()); v.push_back(m->GetNValidPixels()); answer(line, v); continue; }
    std::string pn; s >> pn; std::vector<double> p = par[pn], out; int q = 0; long n = (long)t.dims[0].first * t.dims[0].second;
    if ((int)p.size() != m->GetNParams()) { fprintf(stderr, "harness: %zu parameters for %d\n", p.size(), m->GetNParams()); return 9; }
    std::vector<double> before = p;
    double *r = 0;
    if (op == "img" && t.mm) {
      s >> q; t.mm->GetFitStatistic(p.data()); r = t.mm->GetModelImageVector(q); n = (long)t.dims[q].first * t.dims[q].second;
    } else if (op == "img") { m->CreateModelImage(p.data()); r = m->GetModelImageVector(); }
    else if (op == "again") { r = m->GetModelImageVector(); }                    // the image just computed, asked for again
    else if (op == "resid") { m->CreateModelImage(p.data()); r = m->GetResidualImageVector(); }
    else if (op == "resid2") { r = m->GetResidualImageVector(); }
    else if (op == "weight") { m->GetFitStatistic(p.data()); r = m->GetWeightImageVector(); }
    else if (op == "data") { r = m->GetDataVector(); }
    else if (op == "single") { s >> q; r = m->GetSingleFunctionImage(p.data(), q); }
    else if (op == "flux") { int xs, ys; s >> xs >> ys; out.resize(m->GetNFunctions()); double tot = m->FindTotalFluxes(p.data(), xs, ys, out.data()); out.push_back(tot); }
    else if (op == "stat") { out.push_back(m->GetFitStatistic(p.data())); }
    else if (op == "dev") { long nd = s >> w ? m->GetNValidPixels() : m->GetNDataValues(); out.assign(std::max(m->GetNDataValues(), nd), 0.0); m->ComputeDeviates(out.data(), p.data()); out.resize(nd); }
    else { fprintf(stderr, "harness: bad request %s\n", ln.c_str()); return 9; }
    if (r) out.assign(r, r + n);
    else if (out.empty()) { printf("R %d none\n", line); continue; }
    answer(line, out);
    if (memcmp(before.data(), p.data(), p.size() * sizeof(double))) printf("PARAMS-CHANGED %d\n", line);
  }
  printf("END\n");
  return 0;
}
