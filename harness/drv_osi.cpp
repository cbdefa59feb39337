// Drives OsiTMINLPInterface objects through histories of modifications, copies, solves, hot starts and feasibility solves and logs
// everything a user of the solver interface can observe of every object after each operation.
#include "minlp_std.hpp"
#include "minlp.hpp"
#include "BonTMINLP2Quad.hpp"
#include "OsiClpSolverInterface.hpp"
using namespace vp; using namespace Bonmin;
static long sc(double v, double s=1000) { double d=v*s; if (d!=d) return 1999999999; if (d>1.9e9) return 1900000000; if (d<-1.9e9) return -1900000000; return std::lround(d); }
static double num2(const json& j) { double v=num(j); return v>=1e300?COIN_DBL_MAX: v<=-1e300?-COIN_DBL_MAX:v; }
static json bs(double v) { return v>=1e19?100000000: v<=-1e19?-100000000: (fabs(v-std::lround(v))<1e-9? (long)std::lround(v):777777777); }
struct Run {
  const json& J; Log log; std::vector<OsiTMINLPInterface*> v; std::vector<CoinWarmStart*> ws; Ipopt::SmartPtr<GMinlp> t; int n;
  Run(const json& j, FILE* f) : J(j) { log.f=f; }
  json look(OsiTMINLPInterface* s) {
    json e; int m=s->getNumRows(); e["n"]=s->getNumCols(); e["m"]=m; json lo=json::array(),up=json::array(),ty=json::array(),rl=json::array(),ru=json::array(),se=json::array(),rh=json::array(),rr=json::array();
    for (int i=0;i<s->getNumCols();i++) { lo.push_back(bs(s->getColLower()[i])); up.push_back(bs(s->getColUpper()[i])); ty.push_back(s->isContinuous(i)?"C": s->isBinary(i)?"B": s->isIntegerNonBinary(i)?"I":"?"); if (s->isInteger(i)==s->isContinuous(i)) ty.back()="!"; if (s->isFreeBinary(i) && !(s->isBinary(i) && s->getColUpper()[i]-s->getColLower()[i]>0.5)) ty.back()="!!"; }
    for (int i=0;i<m;i++) { rl.push_back(bs(s->getRowLower()[i])); ru.push_back(bs(s->getRowUpper()[i])); }
    if (m) { const char* a=s->getRowSense(); const double *b=s->getRightHandSide(), *c=s->getRowRange(); for (int i=0;i<m;i++) { se.push_back(std::string(1,a[i])); rh.push_back(bs(b[i])); rr.push_back(bs(c[i])); } }
    e["lo"]=lo; e["up"]=up; e["ty"]=ty; e["rl"]=rl; e["ru"]=ru; e["se"]=se; e["rh"]=rh; e["rr"]=rr; e["ni"]=s->getNumIntegers();
    json x=json::array(), du=json::array(), ac=json::array(); const double* p=s->getColSolution(); e["hasx"]=p!=NULL; if (p) for (int i=0;i<s->getNumCols();i++) x.push_back(sc(p[i]));
    std::string st= s->isProvenOptimal()?"opt": s->isProvenPrimalInfeasible()?"inf": s->isProvenDualInfeasible()?"unb":"fail"; e["st"]=st; e["aband"]=s->isAbandoned();
    e["obj"]=0;
    if (st=="opt" && m>=0) { const double* d=s->getRowPrice(); int k=2*s->getNumCols()+m; if (d) for (int i=0;i<k;i++) du.push_back(sc(d[i])); const double* a=s->getRowActivity(); if (a) for (int i=0;i<m;i++) ac.push_back(sc(a[i],1e6)); e["obj"]=sc(s->getObjValue(),1e6); }
    e["x"]=x; e["du"]=du; e["ac"]=ac; return e; }
  static json lin(const CoinPackedVectorBase& v, double lb, double ub, bool glob=false) { json c=json::array(); for (int i=0;i<v.getNumElements();i++) c.push_back({v.getIndices()[i], sc(v.getElements()[i])});
    json r; r["c"]=c; r["lb"]= lb<=-1e19? -1000000000: std::max(-999999999L,sc(lb)); r["ub"]= ub>=1e19? 1000000000: std::min(999999999L,sc(ub)); r["glob"]=glob; return r; }
  static json rowcuts(OsiCuts& cs) { json a=json::array(); for (int i=0;i<cs.sizeRowCuts();i++) { OsiRowCut& c=cs.rowCut(i); a.push_back(lin(c.row(), c.lb(), c.ub(), c.globallyValid())); } return a; }
  std::vector<double> at(const json& x, OsiTMINLPInterface* s, json& e) { std::vector<double> r; if (x==nullptr) { const double* p=s->getColSolution(); r.assign(p,p+n); } else for (auto& t: x) r.push_back(t); json a=json::array(); for (double d: r) a.push_back(sc(d)); e["x"]=a; return r; }
  OsiRowCut* mk(const json& c) { std::vector<int> ix; std::vector<double> el; for (auto& t: c["l"]) { ix.push_back(t[0]); el.push_back(t[1]); }
    OsiRowCut* r; if (c["q"].size()) { QuadCut* q=new QuadCut; q->c()=0; q->type()=Upper; std::vector<int> ir,jc; std::vector<double> va; for (auto& e: c["q"]) { int i=e[0], j=e[1]; double w=e[2]; ir.push_back(std::min(i,j)); jc.push_back(std::max(i,j)); va.push_back(i==j?w:w/2); } q->Q()=CoinPackedMatrix(true, ir.data(), jc.data(), va.data(), (int)va.size()); q->Q().setDimensions(n,n); r=q; } else r=new OsiRowCut;
    r->setRow((int)ix.size(), ix.data(), el.data(), false); r->setLb(num2(c["lb"])); r->setUb(num2(c["ub"])); return r; }
  void go() {
    Inst in(J["inst"]); n=in.n; for (auto& v: in.clb) if (v<=-1e300) v=-COIN_DBL_MAX; for (auto& v: in.cub) if (v>=1e300) v=COIN_DBL_MAX; t=new GMinlp(in);
    static BonminSetup b; b.initializeOptionsAndJournalist(); b.readOptionsString("bonmin.nlp_log_level 0\nprint_level 0\nsb yes\n"+J.value("opts",std::string()));
    OsiTMINLPInterface* s=new OsiTMINLPInterface; s->initialize(b.roptions(), b.options(), b.journalist(), "bonmin.", GetRawPtr(t)); s->messageHandler()->setLogLevel(0);
    if (J.value("quad",true)) s->use(new TMINLP2TNLPQuadCuts(GetRawPtr(t)));
    s->setSolver(new IpoptSolver(b.roptions(), b.options(), b.journalist(), "bonmin.")); v.push_back(s);
    { json e; e["ev"]="start"; e["objs"]=json::array({look(s)}); log.put(e); }
    for (auto& op : J["ops"]) {
      std::string k=op[0]; json e; e["ev"]=k; int o=op[1]; if (o<0||o>=(int)v.size()) continue; e["o"]=o+1; OsiTMINLPInterface* s=v[o]; std::string exc="none";
      try {
      if (k=="bnd") { int i=op[2]; double l=op[3], u=op[4]; int how=op[5];
        if (how==0) { s->setColLower(i,l); s->setColUpper(i,u); } else if (how==1) s->setColBounds(i,l,u); else if (how==2) { std::vector<double> L(s->getColLower(), s->getColLower()+n), U(s->getColUpper(), s->getColUpper()+n); L[i]=l; U[i]=u; s->setColLower(L.data()); s->setColUpper(U.data()); }
        else { double bb[2]={l,u}; int ii[1]={i}; s->setColSetBounds(ii,ii+1,bb); } }
      else if (k=="solve") { if (op[2].get<int>()==0) s->initialSolve(); else s->resolve(); }
      else if (k=="clone") v.push_back(dynamic_cast<OsiTMINLPInterface*>(s->clone()));
      else if (k=="assign") { int p=op[2]; *s=*v[p]; }
      else if (k=="cut") { std::vector<OsiRowCut*> cs; for (auto& c: op[2]) cs.push_back(mk(c)); int how=op[3]; bool q=false; for (auto* c: cs) q|= dynamic_cast<QuadCut*>(c)!=NULL; if ((q && how==1) || how==3) how=0;
        if (how==0) { std::vector<const OsiRowCut*> pc(cs.begin(),cs.end()); s->applyRowCuts((int)pc.size(), pc.data()); } else if (how==1) { std::vector<OsiRowCut> vc; for (auto* c: cs) vc.push_back(*c); s->applyRowCuts((int)vc.size(), vc.data()); }
        else if (how==2) { OsiCuts oc; for (auto* c: cs) oc.insert(*c); s->applyCuts(oc); }
        for (auto* c: cs) delete c; }
      else if (k=="del") { std::vector<int> ix; for (auto& t: op[2]) ix.push_back(in.m+t.get<int>()); s->deleteRows((int)ix.size(), ix.data()); }
      else if (k=="type") { if (op[3].get<int>()) s->setInteger(op[2].get<int>()); else s->setContinuous(op[2].get<int>()); }
      else if (k=="setx") { if (op[2]==nullptr) s->setColSolution(NULL); else { std::vector<double> x; for (auto& t: op[2]) x.push_back(t); s->setColSolution(x.data()); } }
      else if (k=="getws") { ws.push_back(s->getWarmStart()); }
      else if (k=="setws") { e["acc"]=s->setWarmStart(ws[op[2].get<int>()]); }
      else if (k=="hot") { s->markHotStart(); json seq=json::array(); std::vector<double> L(s->getColLower(), s->getColLower()+n), U(s->getColUpper(), s->getColUpper()+n);
        for (auto& h: op[2]) { int i=h[0]; s->setColLower(i,h[1].get<double>()); s->setColUpper(i,h[2].get<double>()); s->solveFromHotStart(); seq.push_back(look(s)); s->setColLower(i,L[i]); s->setColUpper(i,U[i]); } s->unmarkHotStart(); e["seq"]=seq; }
      else if (k=="feas") { std::vector<double> x; for (auto& t: op[2]) x.push_back(t); std::vector<int> ix; for (auto& t: op[3]) ix.push_back(t); int L=op[4]; double r;
        if (op[5]==nullptr) r=s->solveFeasibilityProblem(x.size(), x.data(), ix.data(), 1., 0., L); else r=s->solveFeasibilityProblem(x.size(), x.data(), ix.data(), L, op[5].get<double>()); e["ret"]=sc(r,1000); }
      else if (k=="switch") { std::vector<double> x; for (auto& t: op[2]) x.push_back(t); std::vector<int> ix; for (auto& t: op[3]) ix.push_back(t); 
        if (op[5]==nullptr) s->switchToFeasibilityProblem(x.size(), x.data(), ix.data(), 1., 0., op[4].get<int>()); else s->switchToFeasibilityProblem(x.size(), x.data(), ix.data(), op[5].get<double>()); }
      else if (k=="oa") { auto x=at(op[2],s,e); OsiCuts cs; std::vector<double> x2; if (op[4]!=nullptr) for (auto& t: op[4]) x2.push_back(t); s->getOuterApproximation(cs, x.data(), op[3].get<int>(), x2.size()?x2.data():NULL, op[5].get<double>(), op[6].get<bool>()); e["cuts"]=rowcuts(cs); }
      else if (k=="coa") { auto x=at(op[3],s,e); OsiCuts cs; s->getConstraintOuterApproximation(cs, op[2].get<int>(), x.data(), NULL, op[4].get<bool>()); e["cuts"]=rowcuts(cs); }
      else if (k=="bend") { auto x=at(nullptr,s,e); OsiCuts cs; e["opt"]=s->isProvenOptimal(); s->getBendersCut(cs, op[2].get<bool>()); e["cuts"]=rowcuts(cs); }
      else if (k=="relax") { auto x=at(op[2],s,e); OsiClpSolverInterface si; si.messageHandler()->setLogLevel(0); s->extractLinearRelaxation(si, x.data(), op[3].get<int>()!=0); int nc=si.getNumCols(); e["ncols"]=nc;
        json lo=json::array(),up=json::array(),it=json::array(),ob=json::array(),rs=json::array(); for (int i=0;i<nc;i++) { double l=si.getColLower()[i],u=si.getColUpper()[i]; lo.push_back(l<=-1e19?-1000000000:(long)std::lround(l)); up.push_back(u>=1e19?1000000000:(long)std::lround(u)); it.push_back(si.isInteger(i)); ob.push_back(sc(si.getObjCoefficients()[i])); }
        const CoinPackedMatrix* M=si.getMatrixByRow(); for (int i=0;i<si.getNumRows();i++) rs.push_back(lin(M->getVector(i), si.getRowLower()[i], si.getRowUpper()[i])); double off=0; si.getDblParam(OsiObjOffset,off); e["off"]=sc(off);
        e["lo"]=lo; e["up"]=up; e["int"]=it; e["obj"]=ob; e["rows"]=rs; }
      else if (k=="back") s->switchToOriginalProblem();
      else if (k=="drop") { delete v[o]; v[o]=NULL; }
      } catch (TNLPSolver::UnsolvedError* E) { exc="unsolved"; } catch (OsiTMINLPInterface::SimpleError& E) { exc="simple:"+E.message(); } catch (CoinError& E) { exc="coin:"+E.message(); } catch (std::exception& E) { exc=std::string("std:")+E.what(); } catch (Ipopt::IpoptException& E) { exc="ipopt:"+E.Message(); } catch (int i) { exc="int"; } catch (double i) { exc="dbl"; } catch (const char* s) { exc=s; } catch (TNLPSolver::UnsolvedError& E) { exc="unsolvedref"; } catch (...) { exc="other"; }
      e["exc"]=exc; if (J.value("nolook",false)) { log.put(e); continue; } json a=json::array(); for (auto* p: v) a.push_back(p? look(p): json::object()); e["objs"]=a; log.put(e);
    }
    for (auto* p: v) delete p; for (auto* w: ws) delete w;
  }
};
int main(int argc,char**argv){ std::string line; FILE* out=fdopen(dup(1),"w"); if(!freopen("/dev/null","w",stdout)) return 3; if(!getenv("VP_STDERR")) if(!freopen("/dev/null","w",stderr)) return 3;
  while (std::getline(std::cin,line)) { if(line.empty()) continue; json J=json::parse(line);
    runChild([&](FILE* f){ Run r(J,f); r.go(); fflush(f); _exit(0); }, out, J.value("timeout",20), J["job"].get<std::string>()); }
  return 0; }
