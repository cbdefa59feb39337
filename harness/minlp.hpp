// Generic small MINLP with integer data: quadratic objective/constraints in integer variables plus
// "epi"/"track" continuous variables whose optimal value is a closed form of the integers, so that
// the TLA+ modules can compute the exact optimum by enumeration.
#ifndef VP_MINLP_HPP
#define VP_MINLP_HPP
#include <nlohmann/json.hpp>
#include <vector>
#include <string>
#include <cstdio>
#include <cmath>
#include <map>
#include <csignal>
#include <unistd.h>
#include <sys/wait.h>
#include <iostream>
#include <sstream>
#include <functional>
#include "BonTMINLP.hpp"
#include "BonBonminSetup.hpp"
#include "BonCbc.hpp"
#include "BonOsiTMINLPInterface.hpp"
#include "BonIpoptSolver.hpp"
#include "BonIpoptWarmStart.hpp"
#include "CoinTime.hpp"

namespace vp {
using json = nlohmann::json;
using Ipopt::Index; using Ipopt::Number;

struct Quad {                       // sum c x_i x_j + sum c x_i + k   (i <= j)
  std::vector<std::tuple<int,int,double>> q; std::vector<std::pair<int,double>> l; double k = 0;
  double val(const double* x) const {
    double v = k; for (auto& t : q) v += std::get<2>(t)*x[std::get<0>(t)]*x[std::get<1>(t)];
    for (auto& t : l) v += t.second*x[t.first]; return v; }
  void grad(const double* x, std::map<int,double>& g) const {
    for (auto& t : q) { int i=std::get<0>(t), j=std::get<1>(t); double c=std::get<2>(t); g[i]+=c*x[j]; g[j]+=c*x[i]; }
    for (auto& t : l) g[t.first] += t.second; }
  void pattern(std::map<int,double>& g) const {
    for (auto& t : q) { g[std::get<0>(t)]; g[std::get<1>(t)]; } for (auto& t : l) g[t.first]; }
  bool linear() const { return q.empty(); }
};
inline Quad parseQuad(const json& j) {
  Quad r; if (j.contains("q")) for (auto& t : j["q"]) r.q.emplace_back(t[0].get<int>(), t[1].get<int>(), t[2].get<double>());
  if (j.contains("l")) for (auto& t : j["l"]) r.l.emplace_back(t[0].get<int>(), t[1].get<double>());
  if (j.contains("k")) r.k = j["k"].get<double>();
  for (auto& t : r.q) if (std::get<0>(t) > std::get<1>(t)) std::swap(std::get<0>(t), std::get<1>(t));
  return r; }
inline double num(const json& j) { if (j.is_string()) { std::string s=j; return s[0]=='-' ? -1e300 : 1e300; } return j.get<double>(); }

struct Inst {
  int n=0, m=0; std::vector<int> type; std::vector<double> lb, ub, x0; Quad obj; std::vector<Quad> con; std::vector<double> clb, cub;
  json raw;
  explicit Inst(const json& j) : raw(j) {
    n=j["n"]; for (auto& t : j["type"]) type.push_back(t); for (auto& t : j["lb"]) lb.push_back(num(t));
    for (auto& t : j["ub"]) ub.push_back(num(t)); for (auto& t : j["x0"]) x0.push_back(t.get<double>());
    obj=parseQuad(j["obj"]); for (auto& c : j["con"]) { con.push_back(parseQuad(c)); clb.push_back(num(c["lb"])); cub.push_back(num(c["ub"])); }
    m=con.size(); }
};

// event log: one json per line on a FILE*
struct Log { FILE* f=nullptr; void put(const json& j) { if (f) { std::string s=j.dump(); fprintf(f,"%s\n",s.c_str()); fflush(f);} } };

class GMinlp : public Bonmin::TMINLP {
public:
  Inst I; Log* log; int finalizeCalls=0; int lastStatus=-99; std::vector<double> lastX; double lastObj=0; bool lastNull=true;
  std::vector<std::pair<int,int>> jac; std::vector<std::vector<int>> jrow; std::map<std::pair<int,int>,int> hidx; std::vector<std::pair<int,int>> hes;
  BranchingInfo branch_; SosInfo sos_; bool hasBranch=false, hasSos=false;
  std::function<bool()> evalHook;               // return false => evaluation error
  std::function<double(const double*)> ub2;     // alternate (upper bounding) objective
  GMinlp(const Inst& i, Log* l=nullptr) : I(i), log(l) {
    jrow.resize(I.m);
    for (int r=0;r<I.m;r++) { std::map<int,double> g; I.con[r].pattern(g); for (auto& t: g) { jac.emplace_back(r,t.first);} }
    auto addh=[&](const Quad& q){ for (auto& t: q.q){ std::pair<int,int> p(std::get<1>(t),std::get<0>(t)); if(!hidx.count(p)){int k=hes.size();hidx[p]=k;hes.push_back(p);} } };
    addh(I.obj); for (auto& c: I.con) addh(c);
    const json& j=I.raw;
    if (j.contains("priorities") || j.contains("directions")) { hasBranch=true; branch_.size=I.n;
      if (j.contains("priorities")) { branch_.priorities=new int[I.n]; for(int k=0;k<I.n;k++) branch_.priorities[k]=j["priorities"][k]; }
      if (j.contains("directions")) { branch_.branchingDirections=new int[I.n]; for(int k=0;k<I.n;k++) branch_.branchingDirections[k]=j["directions"][k]; } }
    if (j.contains("sos")) { hasSos=true; auto& s=j["sos"]; int ns=s.size(); int nz=0; for(auto& e: s) nz+=e["idx"].size();
      sos_.num=ns; sos_.numNz=nz; sos_.types=new char[ns]; sos_.starts=new int[ns+1]; sos_.indices=new int[nz]; sos_.weights=new double[nz];
      if (j.contains("sosPrio")) { sos_.priorities=new int[ns]; for(int k=0;k<ns;k++) sos_.priorities[k]=j["sosPrio"][k]; }
      int p=0; for(int k=0;k<ns;k++){ sos_.types[k]=(char)s[k]["type"].get<int>(); sos_.starts[k]=p; for(size_t q=0;q<s[k]["idx"].size();q++){ sos_.indices[p]=s[k]["idx"][q]; sos_.weights[p]=s[k]["w"][q]; p++; } } sos_.starts[ns]=p; }
  }
  virtual ~GMinlp(){}
  virtual bool get_variables_types(Index n, VariableType* t) { for(int i=0;i<n;i++) t[i]= I.type[i]==0?CONTINUOUS: I.type[i]==1?BINARY:INTEGER; return true; }
  virtual bool get_variables_linearity(Index n, Ipopt::TNLP::LinearityType* t) { for(int i=0;i<n;i++) t[i]=Ipopt::TNLP::LINEAR;
    auto mk=[&](const Quad& q){ for(auto& e: q.q){ t[std::get<0>(e)]=Ipopt::TNLP::NON_LINEAR; t[std::get<1>(e)]=Ipopt::TNLP::NON_LINEAR; } }; mk(I.obj); for(auto& c: I.con) mk(c); return true; }
  virtual bool get_constraints_linearity(Index m, Ipopt::TNLP::LinearityType* t) { for(int i=0;i<m;i++) t[i]=I.con[i].linear()?Ipopt::TNLP::LINEAR:Ipopt::TNLP::NON_LINEAR; return true; }
  virtual bool get_nlp_info(Index& n, Index& m, Index& nj, Index& nh, Ipopt::TNLP::IndexStyleEnum& s) { n=I.n; m=I.m; nj=jac.size(); nh=hes.size(); s= I.raw.value("fortran",false)?Ipopt::TNLP::FORTRAN_STYLE:Ipopt::TNLP::C_STYLE; return true; }
  virtual bool get_bounds_info(Index n, Number* xl, Number* xu, Index m, Number* gl, Number* gu) { for(int i=0;i<n;i++){xl[i]=I.lb[i];xu[i]=I.ub[i];} for(int i=0;i<m;i++){gl[i]=I.clb[i];gu[i]=I.cub[i];} return true; }
  virtual bool get_starting_point(Index n, bool ix, Number* x, bool iz, Number* zl, Number* zu, Index m, bool il, Number* lam) {
    if(ix) for(int i=0;i<n;i++) x[i]=I.x0[i]; if(iz) for(int i=0;i<n;i++){zl[i]=1;zu[i]=1;} if(il) for(int i=0;i<m;i++) lam[i]=0; return true; }
  virtual bool eval_f(Index n, const Number* x, bool, Number& v) { if(evalHook && !evalHook()) return false; v=I.obj.val(x); return true; }
  virtual bool eval_grad_f(Index n, const Number* x, bool, Number* g) { for(int i=0;i<n;i++) g[i]=0; std::map<int,double> m; I.obj.grad(x,m); for(auto&t:m) g[t.first]=t.second; return true; }
  virtual bool eval_g(Index n, const Number* x, bool, Index m, Number* g) { if(evalHook && !evalHook()) return false; for(int i=0;i<m;i++) g[i]=I.con[i].val(x); return true; }
  virtual bool eval_jac_g(Index n, const Number* x, bool, Index m, Index nj, Index* ir, Index* jc, Number* v) {
    int off= I.raw.value("fortran",false)?1:0;
    if(!v){ for(size_t k=0;k<jac.size();k++){ir[k]=jac[k].first+off;jc[k]=jac[k].second+off;} return true; }
    std::vector<std::map<int,double>> G(I.m); for(int r=0;r<I.m;r++){ I.con[r].pattern(G[r]); I.con[r].grad(x,G[r]); }
    for(size_t k=0;k<jac.size();k++) v[k]=G[jac[k].first][jac[k].second]; return true; }
  virtual bool eval_h(Index n, const Number* x, bool, Number of, Index m, const Number* lam, bool, Index nh, Index* ir, Index* jc, Number* v) {
    int off= I.raw.value("fortran",false)?1:0;
    if(!v){ for(size_t k=0;k<hes.size();k++){ir[k]=hes[k].first+off;jc[k]=hes[k].second+off;} return true; }
    for(size_t k=0;k<hes.size();k++) v[k]=0;
    auto add=[&](const Quad& q,double w){ for(auto&t:q.q){int i=std::get<0>(t),j=std::get<1>(t);double c=std::get<2>(t);v[hidx[{j,i}]]+= w*c*(i==j?2:1);} };
    add(I.obj,of); for(int r=0;r<m;r++) add(I.con[r],lam[r]); return true; }
  virtual bool eval_gi(Index n, const Number* x, bool, Index i, Number& gi) { gi=I.con[i].val(x); return true; }
  virtual bool eval_grad_gi(Index n, const Number* x, bool, Index i, Index& nn, Index* jc, Number* v) {
    int off= I.raw.value("fortran",false)?1:0;
    std::map<int,double> g; I.con[i].pattern(g); if(x) I.con[i].grad(x,g); if(!v){ nn=0; for(auto&t:g) jc[nn++]=t.first+off; } else { nn=0; for(auto&t:g) v[nn++]=t.second; } return true; }
  virtual void finalize_solution(SolverReturn st, Index n, const Number* x, Number obj) { finalizeCalls++; lastStatus=(int)st; lastNull=(x==NULL); lastX.clear(); if(x) lastX.assign(x,x+n); lastObj=obj;
    if(log){ json e; e["ev"]="finalize"; e["st"]=(int)st; e["n"]=n; e["has"]=x!=NULL; e["obj"]=obj; if(x) e["x"]=lastX; log->put(e);} }
  virtual const BranchingInfo* branchingInfo() const { return hasBranch?&branch_:NULL; }
  virtual const SosInfo* sosConstraints() const { return hasSos?&sos_:NULL; }
  virtual bool hasLinearObjective() { return I.raw.value("declareLinear", true) && I.obj.linear(); }
  virtual bool hasUpperBoundingObjective() { return (bool)ub2; }
  virtual bool eval_upper_bound_f(Index n, const Number* x, Number& v) { if(!ub2) return false; v=ub2(x); return true; }
};

// NLP solver that records every continuous-relaxation solve (box, status, objective) of the run.
class RecSolver : public Bonmin::IpoptSolver {
public:
  Log* log; int* counter; std::function<int(int)> inject;   // inject(k) -> forced return status (or 99 = none)
  RecSolver(Ipopt::SmartPtr<Bonmin::RegisteredOptions> r, Ipopt::SmartPtr<Ipopt::OptionsList> o, Ipopt::SmartPtr<Ipopt::Journalist> j, const std::string& p, Log* l, int* c)
    : Bonmin::IpoptSolver(r,o,j,p), log(l), counter(c) {}
  RecSolver(const RecSolver& o) : Bonmin::IpoptSolver(o), log(o.log), counter(o.counter), inject(o.inject) {}
  virtual Ipopt::SmartPtr<Bonmin::TNLPSolver> clone() { Ipopt::SmartPtr<RecSolver> r=new RecSolver(*this); return GetRawPtr(r); }
  ReturnStatus rec(const Ipopt::SmartPtr<Ipopt::TNLP>& t, int re) {
    int k=(*counter)++;
    Index n,m,a,b; Ipopt::TNLP::IndexStyleEnum s; t->get_nlp_info(n,m,a,b,s); std::vector<double> xl(n),xu(n),gl(m),gu(m); t->get_bounds_info(n,xl.data(),xu.data(),m,gl.data(),gu.data());
    int f = inject ? inject(k) : 99; ReturnStatus r;
    r= re? Bonmin::IpoptSolver::ReOptimizeTNLP(t):Bonmin::IpoptSolver::OptimizeTNLP(t); if (f!=99) r=(ReturnStatus)f;   // the solve takes place, only its outcome is replaced
    if (log) { json e; e["ev"]="nlp"; e["re"]=re; e["st"]=(int)r; e["n"]=n; e["m"]=m; e["xl"]=xl; e["xu"]=xu; e["inj"]=f!=99;
      Bonmin::TMINLP2TNLP* p=dynamic_cast<Bonmin::TMINLP2TNLP*>(GetRawPtr(t)); e["orig"]= p!=NULL; if(p) e["obj"]=p->obj_value(); log->put(e); }
    return r; }
  virtual ReturnStatus OptimizeTNLP(const Ipopt::SmartPtr<Ipopt::TNLP>& t) { return rec(t,0); }
  virtual ReturnStatus ReOptimizeTNLP(const Ipopt::SmartPtr<Ipopt::TNLP>& t) { return rec(t,1); }
};

// Run job in a child so that a crash/abort/hang of the code under test is an observation, not our death.
inline int runChild(const std::function<void(FILE*)>& fn, FILE* out, int timeoutSec, const std::string& crashTag) {
  fflush(out); int pfd[2]; if (pipe(pfd)) { perror("pipe"); exit(3); }
  pid_t pid=fork();
  if (pid==0) { close(pfd[0]); alarm(timeoutSec); FILE* f=fdopen(pfd[1],"w"); fn(f); fflush(f); _exit(0); }
  close(pfd[1]); std::string buf; char b[65536]; ssize_t k; while ((k=read(pfd[0],b,sizeof b))>0) buf.append(b,k); close(pfd[0]);
  int st; waitpid(pid,&st,0); fwrite(buf.data(),1,buf.size(),out);
  json e; e["ev"]="exit"; e["job"]=crashTag; e["sig"]= WIFSIGNALED(st)?WTERMSIG(st):0; e["rc"]= WIFEXITED(st)?WEXITSTATUS(st):-1; fprintf(out,"%s\n",e.dump().c_str()); fflush(out); return st; }
inline void quiet() { static bool d=false; if(d) return; d=true; }
} // namespace vp
#endif
