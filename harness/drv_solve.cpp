// Reads jobs (one json per line): {"job":id,"inst":{...},"opts":"...","timeout":s,"record":0/1,"api":"tminlp"|"osi"}
// Runs the complete solver on each and logs nlp / finalize / result events.
#include "minlp.hpp"
#include "BonOACutGenerator2.hpp"
#include "BonEcpCuts.hpp"
#include "BonOaNlpOptim.hpp"
#include "BonOaFeasChecker.hpp"
#include "BonFpForMinlp.hpp"
#include "CoinTime.hpp"
using namespace vp; using namespace Bonmin; using Ipopt::SmartPtr;
static long sc3(double v) { double d=v*1000; if (d!=d) return 1999999999; if (d>9.9e8) return 990000000; if (d<-9.9e8) return -990000000; return std::lround(d); }
// a cut generator of Bonmin that logs the cuts it generates, with the box of the node
struct CutLog { Log* log; int n, m; long max; };
template<class G> struct Rec : public G {
  CutLog* L; const char* id; Rec(const G& g, CutLog* l, const char* i) : G(g), L(l), id(i) {} Rec(const Rec& r) : G(r), L(r.L), id(r.id) {}
  virtual CglCutGenerator* clone() const { return new Rec(*this); }
  virtual void generateCuts(const OsiSolverInterface& si, OsiCuts& cs, CglTreeInfo info) {
    int before=cs.sizeRowCuts(); std::vector<double> lo(si.getColLower(),si.getColLower()+L->n), up(si.getColUpper(),si.getColUpper()+L->n);
    G::generateCuts(si,cs,info); if (L->max<=0) return; json a=json::array();
    for (int i=before;i<cs.sizeRowCuts() && L->max>0;i++) { OsiRowCut& c=cs.rowCut(i); L->max--; json v=json::array(); for (int k=0;k<c.row().getNumElements();k++) v.push_back({c.row().getIndices()[k], sc3(c.row().getElements()[k])});
      json r; r["c"]=v; r["lb"]= c.lb()<=-1e19? -1000000000: sc3(c.lb()); r["ub"]= c.ub()>=1e19? 1000000000: sc3(c.ub()); r["glob"]=c.globallyValid(); a.push_back(r); }
    if (a.size()) { json e; e["ev"]="gcut"; e["gen"]=id; e["cuts"]=a; json l=json::array(),u=json::array(); for (int i=0;i<L->n;i++) { l.push_back(sc3(lo[i])); u.push_back(sc3(up[i])); } e["lo"]=l; e["up"]=u; L->log->put(e); } }
};
static void record(BonminSetup& b, CutLog* l) {
  for (auto& m : b.cutGenerators()) { CglCutGenerator* g=m.cgl, *r=NULL;
    if (auto* p=dynamic_cast<OACutGenerator2*>(g)) r=new Rec<OACutGenerator2>(*p,l,"oa"); else if (auto* p=dynamic_cast<EcpCuts*>(g)) r=new Rec<EcpCuts>(*p,l,"ecp");
    else if (auto* p=dynamic_cast<OaNlpOptim*>(g)) r=new Rec<OaNlpOptim>(*p,l,"nlp"); else if (auto* p=dynamic_cast<OaFeasibilityChecker*>(g)) r=new Rec<OaFeasibilityChecker>(*p,l,"feas");
    else if (auto* p=dynamic_cast<MinlpFeasPump*>(g)) r=new Rec<MinlpFeasPump>(*p,l,"pump");
    if (r) { delete g; m.cgl=r; } } }
static bool running=false;   // a signal can be sent: the search has begun and none was sent yet
static void interrupt(Log& log) { json e; e["ev"]="sigint"; log.put(e); raise(SIGINT); }
static void solveJob(const json& J, FILE* f) {
  Log log; log.f=f; Inst I(J["inst"]); int cnt=0; bool rec=J.value("record",0);
  SmartPtr<GMinlp> g=new GMinlp(I,&log); json R; R["ev"]="result"; R["job"]=J["job"];
  int repeats=J.value("repeat",1);
  BonminSetup b; b.initializeOptionsAndJournalist();
  std::string opts="bonmin.bb_log_level 0\nbonmin.nlp_log_level 0\nbonmin.lp_log_level 0\nbonmin.milp_log_level 0\nbonmin.oa_log_level 0\nbonmin.fp_log_level 0\nbonmin.oa_cuts_log_level 0\nbonmin.nlp_log_at_root 0\nprint_level 0\nsb yes\n";
  opts+=J.value("opts",std::string());
  b.readOptionsString(opts);
  Bab& bb=*new Bab;   // never destroyed: Cbc cannot be torn down after an exception went through it
  std::string exc="none";
  try {
    if (J.value("api",std::string("osi"))=="osi") {
      OsiTMINLPInterface si; si.initialize(b.roptions(), b.options(), b.journalist(), "bonmin.", GetRawPtr(g));
      RecSolver* rs=new RecSolver(b.roptions(), b.options(), b.journalist(), "bonmin.", rec?&log:nullptr, &cnt);
      if (J.contains("inject")) { std::map<int,int> m; for (auto& t: J["inject"]) m[t[0]]=t[1].get<int>(); int all=J.value("injectAll",99);
        rs->inject=[m,all](int k){ auto it=m.find(k); return it==m.end()?all:it->second; }; }
      if (J.contains("sigint")) { auto old=rs->inject; int at=J["sigint"]; rs->inject=[old,at,&log](int k){ if (k>=at && running) { running=false; interrupt(log); } return old?old(k):99; }; }
      if (J.contains("sigeval")) { int at=J["sigeval"]; int* c=new int(0); g->evalHook=[at,c,&log](){ if (running && (*c)++==at) { running=false; interrupt(log); } return true; }; }
      si.setSolver(rs); si.messageHandler()->setLogLevel(0);
      b.initialize(si, true);
    } else b.initialize(GetRawPtr(g), true);
    if (J.contains("cuts")) { CutLog* l=new CutLog; l->log=&log; l->n=I.n; l->m=I.m; l->max=J["cuts"]; record(b,l); }
    R["started"]=true; { json e; e["ev"]="started"; log.put(e); } running=true; double cpu0=CoinCpuTime(); auto stop=[&](){ R["cpu"]=CoinCpuTime()-cpu0; }; for (int r=0;r<repeats;r++) bb(b); stop();
  } catch (TNLPSolver::UnsolvedError* E) { exc="unsolved"; } catch (OsiTMINLPInterface::SimpleError& E) { exc="simple:"+E.message(); }
  catch (CoinError& E) { exc="coin:"+E.message(); } catch (Ipopt::IpoptException& E) { exc="ipopt:"+E.Message(); }
  catch (...) { exc="other"; }
  R["exc"]=exc; R["mip"]=(int)bb.mipStatus(); R["bestObj"]=bb.bestObj(); R["bestBound"]=bb.bestBound(); R["nodes"]=bb.numNodes(); R["its"]=bb.iterationCount(); if (exc=="none") R["nsol"]=bb.model().getSolutionCount();
  R["cont"]=bb.continuousRelaxation(); R["hasSol"]=bb.bestSolution()!=NULL; if(bb.bestSolution()) R["x"]=std::vector<double>(bb.bestSolution(), bb.bestSolution()+I.n);
  if(bb.bestSolution()) R["fx"]=I.obj.val(bb.bestSolution());
  { double viol=0; if(bb.bestSolution()) { const double* x=bb.bestSolution(); for(int i=0;i<I.n;i++) viol=std::max(viol,std::max(I.lb[i]-x[i],x[i]-I.ub[i])); for(int i=0;i<I.m;i++){ double v=I.con[i].val(x); viol=std::max(viol,std::max(I.clb[i]-v,v-I.cub[i])); } } R["viol"]=viol; }
  R["fin"]=g->finalizeCalls; R["nlps"]=cnt; log.put(R);
}
int main(int argc,char**argv){ std::string line; FILE* out=fdopen(dup(1),"w"); if(!freopen("/dev/null","w",stdout)) return 3; if(!getenv("VP_STDERR")) if(!freopen("/dev/null","w",stderr)) return 3;
  while (std::getline(std::cin,line)) { if(line.empty()) continue; json J=json::parse(line);
    runChild([&](FILE* f){ solveJob(J,f); }, out, J.value("timeout",60), J["job"].get<std::string>()); }
  return 0; }
