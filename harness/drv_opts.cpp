// Reads jobs {"job":id,"inst":{...},"api":"tminlp"|"osi","optfile":text or absent,"ops":[{"src":"string"|"file"|"api","set":[[tag,kind,text],...]}],"timeout":s}
// Gives options to a setup in every way there is, initialises it, and reports what the setup, a copy of it and the search it drives use.
#include "minlp.hpp"
#include <fstream>
#include <unistd.h>
using namespace vp; using namespace Bonmin; using Ipopt::SmartPtr;
static std::string num6(double v) { char b[64]; snprintf(b,sizeof b,"%.6g",v); return b; }
static json params(BonminSetup& b) { json p;
  typedef BabSetupBase S; auto I=[&](const char* n,S::IntParameter k){ p[n]=num6(b.getIntParameter(k)); }; auto D=[&](const char* n,S::DoubleParameter k){ p[n]=num6(b.getDoubleParameter(k)); };
  I("bb_log_interval",S::BabLogInterval); I("max_consecutive_failures",S::MaxFailures); I("nlp_failure_behavior",S::FailureBehavior); I("max_consecutive_infeasible",S::MaxInfeasible);
  I("number_strong_branch",S::NumberStrong); I("number_before_trust",S::MinReliability); I("node_limit",S::MaxNodes); I("solution_limit",S::MaxSolutions); I("iteration_limit",S::MaxIterations);
  I("sos_constraints",S::DisableSos); I("num_cut_passes",S::NumCutPasses); I("num_cut_passes_at_root",S::NumCutPassesAtRoot);
  D("cutoff_decr",S::CutoffDecr); D("cutoff",S::Cutoff); D("allowable_gap",S::AllowableGap); D("allowable_fraction_gap",S::AllowableFractionGap); D("integer_tolerance",S::IntTol); D("time_limit",S::MaxTime);
  p["node_comparison"]=num6((int)b.nodeComparisonMethod()); p["tree_search_strategy"]=num6((int)b.treeTraversalMethod()); p["algorithm"]=num6((int)b.getAlgorithm()); return p; }
static void go(const json& J, FILE* f) {
  Log log; log.f=f; Inst I(J["inst"]); SmartPtr<GMinlp> g=new GMinlp(I,nullptr); json R; R["ev"]="report"; std::string exc="none";
  char dir[]="/tmp/vp_opts_XXXXXX"; if(!mkdtemp(dir)||chdir(dir)) { log.put({{"ev","scratch"}}); return; }
  if (J.contains("optfile")) { std::ofstream o("bonmin.opt"); o<<J["optfile"].get<std::string>(); }
  BonminSetup b; b.initializeOptionsAndJournalist(); int k=0;
  for (auto& op: J["ops"]) { bool refused=false; std::string src=op["src"];
    try {
      if (src=="api") { for (auto& s: op["set"]) { std::string tag=s[0],kind=s[1],txt=s[2]; bool ok;
          if (kind=="int") ok=b.options()->SetIntegerValue(tag,atoi(txt.c_str())); else if (kind=="num") ok=b.options()->SetNumericValue(tag,atof(txt.c_str())); else ok=b.options()->SetStringValue(tag,txt);
          if (!ok) { refused=true; break; } } }
      else { std::string t; for (auto& s: op["set"]) t+=s[0].get<std::string>()+" "+s[2].get<std::string>()+"\n";
        if (src=="string") b.readOptionsString(t); else { std::string fn="o"+std::to_string(k++)+".opt"; { std::ofstream o(fn); o<<t; } b.readOptionsFile(fn); } }
    } catch (Ipopt::IpoptException&) { refused=true; }
    json e; e["ev"]="op"; e["src"]=src; e["refused"]=refused; log.put(e); }
  // keep the run silent, whatever was set
  for (const char* n : {"bonmin.bb_log_level","bonmin.nlp_log_level","bonmin.lp_log_level","bonmin.milp_log_level","bonmin.oa_log_level","bonmin.fp_log_level","bonmin.oa_cuts_log_level"}) b.options()->SetIntegerValue(n,0);
  b.options()->SetIntegerValue("print_level",0); b.options()->SetStringValue("sb","yes");
  try {
    if (J.value("api",std::string("tminlp"))=="osi") { OsiTMINLPInterface si; si.initialize(b.roptions(), b.options(), b.journalist(), "bonmin.", GetRawPtr(g)); si.messageHandler()->setLogLevel(0); b.initialize(si,true); }
    else b.initialize(GetRawPtr(g),true);
    R["setup"]=params(b); json c=json::array(); for (auto& m: b.cutGenerators()) c.push_back({m.id,m.frequency,m.atSolution,m.normal}); R["cuts"]=c; json h=json::array(); for (auto& m: b.heuristics()) h.push_back(m.id); R["heur"]=h;
    { BonminSetup c2(b); R["copy"]=params(c2); json cc=json::array(); for (auto& m: c2.cutGenerators()) cc.push_back({m.id,m.frequency,m.atSolution,m.normal}); R["ccuts"]=cc; }
    // Cbc's own strong branching needs the matrix of a linear program, which B-BB's solver does not have (known finding of P01): no search there
    std::string vn; b.options()->GetStringValue("variable_selection",vn,"bonmin.");
    bool sub=false; for (auto& m: b.heuristics()) sub=sub||m.id=="RINS";   // nor with sub-searches, which take bare names differently
    if (sub || (b.getAlgorithm()==B_BB && (vn=="strong-branching" || vn=="reliability-branching"))) { R["search"]=json::object(); R["exc"]=exc; log.put(R); if (!chdir("/")) { std::string c=std::string("rm -rf -- '")+dir+"'"; if (system(c.c_str())) {} } return; }
    Bab& bb=*new Bab; bb(b); const CbcModel& m=bb.model(); json q;
    q["node_limit"]=num6(m.getMaximumNodes()); q["solution_limit"]=num6(m.getMaximumSolutions()); q["integer_tolerance"]=num6(m.getIntegerTolerance());
    q["allowable_gap"]=num6(m.getAllowableGap()); q["allowable_fraction_gap"]=num6(m.getAllowableFractionGap()); q["number_strong_branch"]=num6(m.numberStrong()); q["number_before_trust"]=num6(m.numberBeforeTrust());
    q["num_cut_passes"]=num6(m.getMaximumCutPasses()); q["num_cut_passes_at_root"]=num6(m.getMaximumCutPassesAtRoot()); q["cutoff_decr"]=num6(m.getCutoffIncrement());
    R["search"]=q; R["mip"]=(int)bb.mipStatus();
  } catch (Ipopt::IpoptException& E) { exc="ipopt"; } catch (CoinError& E) { exc="coin:"+E.message(); } catch (OsiTMINLPInterface::SimpleError& E) { exc="simple:"+E.message(); } catch (...) { exc="other"; }
  R["exc"]=exc; log.put(R); if (!chdir("/")) { std::string c=std::string("rm -rf -- '")+dir+"'"; if (system(c.c_str())) {} }
}
int main(){ std::string line; FILE* out=fdopen(dup(1),"w"); if(!freopen("/dev/null","w",stdout)) return 3; if(!getenv("VP_STDERR")) if(!freopen("/dev/null","w",stderr)) return 3;
  while (std::getline(std::cin,line)) { if(line.empty()) continue; json J=json::parse(line); runChild([&](FILE* f){ go(J,f); }, out, J.value("timeout",60), J["job"].get<std::string>()); } return 0; }
