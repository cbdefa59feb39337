// Drives the NLPs Bonmin derives from the user's problem (appended linear/quadratic rows, changed bounds and objective, feasibility-pump
// and local-branching problems, copies) and logs what the NLP solver sees: bounds, values, first and second derivatives as dense arrays.
// All data are integers; values are logged doubled so that halves stay integral.
#include "minlp_std.hpp"
#include "minlp.hpp"
#include "BonTMINLP2Quad.hpp"
#include "BonTNLP2FPNLP.hpp"
#include "BonQuadCut.hpp"
#include "BonTMINLPLinObj.hpp"
using namespace vp; using namespace Bonmin;
static json I2(double v) { double d=2*v; if (!(fabs(d)<1e9)) return d>0?1999999998:-1999999998; double r=std::floor(d+0.5); if (fabs(d-r)>1e-6) return 1234567891; return (long)r; }
struct View { Ipopt::SmartPtr<TMINLP2TNLPQuadCuts> p; Ipopt::SmartPtr<TNLP2FPNLP> fp; };
struct Run {
  const json& J; Log log; std::vector<View> v; Ipopt::SmartPtr<TMINLP> t;
  Run(const json& j, FILE* f) : J(j) { log.f=f; }
  OsiRowCut* mk(const json& c, bool& quad) {
    quad=c["q"].size()>0 || c.value("forceq",false); std::vector<int> ix; std::vector<double> el; for (auto& t: c["l"]) { ix.push_back(t[0]); el.push_back(t[1]); }
    OsiRowCut* r; if (quad) { QuadCut* q=new QuadCut; q->c()=c["k"].get<double>(); int ty=c.value("type",0); q->type()= ty==0?Upper: ty==1?Lower:Full; int n=J["inst"]["n"].get<int>()+J.value("wrap",0); std::vector<int> ir,jc; std::vector<double> va;
        for (auto& e: c["q"]) { int i=e[0], j=e[1]; double w=e[2]; if (i>j) std::swap(i,j); if (i==j) { ir.push_back(i); jc.push_back(j); va.push_back(w); } else if (ty==0) { ir.push_back(i); jc.push_back(j); va.push_back(w/2); } else if (ty==1) { ir.push_back(j); jc.push_back(i); va.push_back(w/2); } else { ir.push_back(i); jc.push_back(j); va.push_back(w-1); ir.push_back(j); jc.push_back(i); va.push_back(1); } }
        q->Q()=CoinPackedMatrix(true, ir.data(), jc.data(), va.data(), (int)va.size()); q->Q().setDimensions(n,n); r=q; }
    else r=new OsiRowCut;
    r->setRow((int)ix.size(), ix.data(), el.data(), false); r->setLb(num(c["lb"])); r->setUb(num(c["ub"])); return r; }
  void eval(int o, bool viaFp, const std::vector<double>& x, double of, int seed, json& e) {
    Ipopt::SmartPtr<Ipopt::TNLP> p= viaFp ? (Ipopt::TNLP*)GetRawPtr(v[o].fp) : (Ipopt::TNLP*)GetRawPtr(v[o].p);
    Index n,m,nj,nh; Ipopt::TNLP::IndexStyleEnum st; p->get_nlp_info(n,m,nj,nh,st); int off= st==Ipopt::TNLP::FORTRAN_STYLE; e["n"]=n; e["m"]=m;
    auto guard=[&](size_t k){ return std::vector<double>(k+8, 77.5); };
    auto lo=guard(n), up=guard(n), gl=guard(m), gu=guard(m), g=guard(m), gr=guard(n), jv=guard(nj), hv=guard(nh); std::vector<int> ji(nj+8,-7), jj(nj+8,-7), hi(nh+8,-7), hj(nh+8,-7);
    bool ok=true; bool over=false; auto chk=[&](std::vector<double>& a, size_t k){ for (size_t i=k;i<k+8;i++) if (a[i]!=77.5) over=true; }; auto chki=[&](std::vector<int>& a, size_t k){ for (size_t i=k;i<k+8;i++) if (a[i]!=-7) over=true; };
    ok&=p->get_bounds_info(n,lo.data(),up.data(),m,gl.data(),gu.data());
    double f=0; ok&=p->eval_f(n,x.data(),true,f); ok&=p->eval_grad_f(n,x.data(),false,gr.data()); ok&=p->eval_g(n,x.data(),false,m,g.data());
    ok&=p->eval_jac_g(n,NULL,false,m,nj,ji.data(),jj.data(),NULL); ok&=p->eval_jac_g(n,x.data(),false,m,nj,NULL,NULL,jv.data());
    std::vector<double> lam(m); json L=json::array(); for (int i=0;i<m;i++) { lam[i]=(seed*7+i*5)%7-3; L.push_back((int)lam[i]); }
    ok&=p->eval_h(n,NULL,false,of,m,NULL,false,nh,hi.data(),hj.data(),NULL); ok&=p->eval_h(n,x.data(),false,of,m,lam.data(),true,nh,NULL,NULL,hv.data());
    chk(lo,n);chk(up,n);chk(gl,m);chk(gu,m);chk(g,m);chk(gr,n);chk(jv,nj);chk(hv,nh);chki(ji,nj);chki(jj,nj);chki(hi,nh);chki(hj,nh);
    std::vector<std::vector<double>> D(m,std::vector<double>(n,0.)), H(n,std::vector<double>(n,0.)); bool rng=true;
    for (int k=0;k<nj;k++) { int r=ji[k]-off, c=jj[k]-off; if (r<0||r>=m||c<0||c>=n) { rng=false; continue; } D[r][c]+=jv[k]; }
    for (int k=0;k<nh;k++) { int r=hi[k]-off, c=hj[k]-off; if (r<0||r>=n||c<0||c>=n) { rng=false; continue; } H[r][c]+=hv[k]; if (r!=c) H[c][r]+=hv[k]; }
    auto vec=[&](const std::vector<double>& a, int k){ json r=json::array(); for (int i=0;i<k;i++) r.push_back(I2(a[i])); return r; };
    e["ok"]=ok; e["over"]=over; e["range"]=rng; e["f"]=I2(f); e["grad"]=vec(gr,n); e["g"]=vec(g,m); e["lo"]=vec(lo,n); e["up"]=vec(up,n); e["rlo"]=vec(gl,m); json ru=json::array(), rx=json::array(); for (int i=0;i<m;i++) { double r=std::floor(gu[i]+0.5); ru.push_back(fabs(gu[i])>1e8?I2(gu[i]): fabs(r-gu[i])<1e-3*(1+fabs(r))?I2(r):I2(gu[i])); rx.push_back(fabs(gu[i])>1e8?0:(long)std::floor(1e6*(r-gu[i])+0.5)); } e["rup"]=ru; e["rupx"]=rx; e["lam"]=L; e["of"]=(int)of;
    json jd=json::array(), hd=json::array(); for (auto& r: D) jd.push_back(vec(r,n)); for (auto& r: H) hd.push_back(vec(r,n)); e["jac"]=jd; e["hes"]=hd;
    if (!viaFp) { TMINLP2TNLPQuadCuts* q=GetRawPtr(v[o].p); json gi=json::array(), gg=json::array(); bool giok=true; for (int i=0;i<m;i++) { double s=0; giok&=q->eval_gi(n,x.data(),true,i,s); gi.push_back(I2(s)); int nn=0; std::vector<int> c(n+8,-7); std::vector<double> d(n+8,0.); giok&=q->eval_grad_gi(n,NULL,false,i,nn,c.data(),NULL); int n2=nn; giok&=q->eval_grad_gi(n,x.data(),false,i,n2,NULL,d.data()); std::vector<double> row(n,0.); for (int k=0;k<nn;k++) { int cc=c[k]-off; if (cc<0||cc>=n) { e["range"]=false; continue; } row[cc]+=d[k]; } gg.push_back(vec(row,n)); }
      e["gi"]=gi; e["ggi"]=gg; e["giok"]=giok;
      std::vector<Ipopt::TNLP::LinearityType> ty(m+1); q->get_constraints_linearity(m,ty.data()); json tl=json::array(); for (int i=0;i<m;i++) tl.push_back(ty[i]==Ipopt::TNLP::LINEAR); e["linear"]=tl;
      e["nrows"]=q->num_constraints(); }
  }
  void go() {
    Inst in(J["inst"]); t=new GMinlp(in); if (J.value("wrap",0)) { Ipopt::SmartPtr<TMINLPLinObj> w=new TMINLPLinObj; w->setTminlp(t); t=GetRawPtr(w); } View a; a.p=new TMINLP2TNLPQuadCuts(t); a.fp=new TNLP2FPNLP(GetRawPtr(a.p), J.value("scale",1.)); v.push_back(a);
    { json e; e["ev"]="start"; log.put(e); }
    for (auto& op : J["ops"]) {
      std::string k=op[0]; json e; e["ev"]=k; int o=op[1]; if (o<0 || o>=(int)v.size()) continue; e["o"]=o+1;
      if (k=="add") { int how=op[2]; std::vector<OsiRowCut*> cs; std::vector<char> isq; json vi=json::array(); for (auto& c: op[3]) { bool q; cs.push_back(mk(c,q)); isq.push_back(q); }
        if (how==0) { OsiCuts oc; for (auto* c: cs) oc.insert(*c); v[o].p->addCuts(oc); }
        else if (how==1) { std::vector<const OsiRowCut*> pc(cs.begin(),cs.end()); v[o].p->addCuts((unsigned)pc.size(), pc.data()); }
        else { Cuts oc; for (size_t i=0;i<cs.size();i++) if (isq[i]) oc.insert(*dynamic_cast<QuadCut*>(cs[i])); else oc.OsiCuts::insert(*cs[i]); if (how==2) v[o].p->addCuts(oc); else v[o].p->addCuts(oc,false); }
        std::vector<double> x; for (auto& t: op[4]) x.push_back(t); for (auto* c: cs) { json w=I2(std::max(-1e6,std::min(1e6,c->violated(x.data())))); vi.push_back(w); } e["viol"]=vi; for (auto* c: cs) delete c; }
      else if (k=="del") { std::vector<int> ix; int base=v[o].p->num_constraints()-op[3].get<int>(); for (auto& t: op[2]) ix.push_back(base+t.get<int>()); v[o].p->removeCuts((unsigned)ix.size(), ix.data()); }
      else if (k=="clone") { View b; b.p=dynamic_cast<TMINLP2TNLPQuadCuts*>(v[o].p->clone()); b.fp=new TNLP2FPNLP(GetRawPtr(b.p), v[o].fp); v.push_back(b); }
      else if (k=="drop") { v[o].fp=NULL; v[o].p=NULL; }
      else if (k=="lin") { std::vector<double> c; for (auto& t: op[2]) c.push_back(t); v[o].p->set_linear_objective((int)c.size(), c.data(), op[3].get<double>()); }
      else if (k=="reset") v[o].p->reset_objective();
      else if (k=="bnd") { if (op[3]!=nullptr) v[o].p->SetVariableLowerBound(op[2], op[3].get<double>()); if (op[4]!=nullptr) v[o].p->SetVariableUpperBound(op[2], op[4].get<double>()); }
      else if (k=="bnds") { std::vector<double> l,u; for (auto& t: op[2]) l.push_back(t); for (auto& t: op[3]) u.push_back(t); int w=op[4]; if (w==0) v[o].p->SetVariablesBounds((int)l.size(), l.data(), u.data()); else if (w==1) v[o].p->SetVariablesLowerBounds((int)l.size(), l.data()); else v[o].p->SetVariablesUpperBounds((int)l.size(), u.data()); }
      else if (k=="fp") { auto& F=op[2]; TNLP2FPNLP* q=GetRawPtr(v[o].fp); q->set_use_feasibility_pump_objective(F["obj"].get<bool>()); q->setLambda(F["lam2"].get<double>()/2); q->setSigma(F["sigma"].get<double>()); q->setNorm(F["norm"].get<int>());
        std::vector<double> x; for (auto& t: F["xbar"]) x.push_back(t); std::vector<int> ix; for (auto& t: F["inds"]) ix.push_back(t); q->set_dist_to_point_obj(x.size(), x.data(), ix.data());
        q->set_use_cutoff_constraint(F["cutoff"]!=nullptr); if (F["cutoff"]!=nullptr) q->set_cutoff(F["cutoff"].get<double>()); q->set_use_local_branching_constraint(F["local"]!=nullptr); if (F["local"]!=nullptr) q->set_rhs_local_branching_constraint(F["local"].get<double>()); }
      else if (k=="eval") { if (!IsValid(v[o].p)) continue; std::vector<double> x; for (auto& t: op[3]) x.push_back(t); e["fp"]=op[2].get<int>()!=0; e["x"]=op[3]; eval(o, op[2].get<int>()!=0, x, op[4].get<double>(), op[5], e); }
      log.put(e);
    }
  }
};
int main(int argc,char**argv){ std::string line; FILE* out=fdopen(dup(1),"w"); if(!freopen("/dev/null","w",stdout)) return 3; if(!getenv("VP_STDERR")) if(!freopen("/dev/null","w",stderr)) return 3;
  while (std::getline(std::cin,line)) { if(line.empty()) continue; json J=json::parse(line);
    runChild([&](FILE* f){ Run r(J,f); r.go(); fflush(f); _exit(0); }, out, J.value("timeout",20), J["job"].get<std::string>()); }
  return 0; }
