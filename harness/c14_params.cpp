// C14 - parameters.  Every parameter x value x line layout through the real parser; the record file written and read
// back; every short sequence of programming-interface calls against a plain map model.
#include <exception>
#include <stdexcept>
#include "Exception.h"
#include "mc.hpp"
#include "Parameters.h"
#include "Simulation.h"
using namespace mc;
namespace {
void boot() { static bool b = false; if (!b) { ExceptionHandler::makeExceptionHandler(python); b = true; } }
typedef std::map<std::string,std::string> SM; typedef std::map<std::string,int> IM; typedef std::map<std::string,double> FM;
struct Model { IM i; FM f; SM s; };
Model model_of(const Parameters& p) { Model m; m.i = p.intparams; m.f = p.floatparams; m.s = p.stringparams; return m; }
const Model& defaults() { static Model m = model_of(Parameters()); return m; }
struct Key { std::string name; int type; };
const std::vector<Key>& keys() { static std::vector<Key> k; if (k.empty()) { for (auto& x : defaults().i) k.push_back({x.first,0}); for (auto& x : defaults().f) k.push_back({x.first,1}); for (auto& x : defaults().s) k.push_back({x.first,2}); } return k; }
// textual value and what it means
const std::vector<std::string>& values(int type) {
  static const std::vector<std::string> I = {"0","1","-1","7","-128","100000","2147483647","-2147483648","+12","007"};
  static const std::vector<std::string> F = {"0.0","1.0","-1.5","3","0.1","3.141592653589793","1.23456789012345678e-20","6.02214076e23","-7.5E-3","1e300",".5","2.","123456.789012345","0.30000000000000004"};
  static const std::vector<std::string> S = {"abc","x","/some/dir/file.dat","a-b_c.d+e","UPPER","1.5","0","run.00001","a=b","on"};
  return type==0 ? I : type==1 ? F : S;
}
void apply(Model& m, const Key& k, const std::string& v) { if (k.type==0) m.i[k.name] = (int)strtol(v.c_str(),0,10); else if (k.type==1) m.f[k.name] = strtod(v.c_str(),0); else m.s[k.name] = v; }
bool same(double a, double b) { return a == b || (a != a && b != b); }
void compare(Ctx& c, const char* key, const Parameters& p, const Model& m, const std::string& what) {
  for (auto& x : m.i) { auto it = p.intparams.find(x.first); if (it == p.intparams.end() || it->second != x.second) c.fail(key, "%s: int %s = %d, expected %d", what.c_str(), x.first.c_str(), it==p.intparams.end() ? -999999 : it->second, x.second); }
  for (auto& x : m.f) { auto it = p.floatparams.find(x.first); if (it == p.floatparams.end() || !same(it->second, x.second)) c.fail(key, "%s: float %s = %.17g, expected %.17g", what.c_str(), x.first.c_str(), it==p.floatparams.end() ? NAN : it->second, x.second); }
  for (auto& x : m.s) { auto it = p.stringparams.find(x.first); if (it == p.stringparams.end() || it->second != x.second) c.fail(key, "%s: string %s = '%s', expected '%s'", what.c_str(), x.first.c_str(), it==p.stringparams.end() ? "(missing)" : it->second.c_str(), x.second.c_str()); }
  if (p.intparams.size() != m.i.size() || p.floatparams.size() != m.f.size() || p.stringparams.size() != m.s.size()) c.fail(key, "%s: number of parameters changed", what.c_str());
}
struct Dir { char d[64]; char old[512]; Dir() { strcpy(d, "/tmp/c14XXXXXX"); mkdtemp(d); getcwd(old, sizeof old); chdir(d); } ~Dir() { chdir(old); std::string cmd = std::string(d); for (const char* f : {"in.param","rid.param","abc.param","r2.param"}) unlink((cmd+"/"+f).c_str()); rmdir(d); } };
std::string layout(int k, const std::string& key, const std::string& v) {
  switch (k) {
    case 0: return key + " = " + v;
    case 1: return key + "=" + v;
    case 2: return "   " + key + "   =    " + v + "   ";
    case 3: return "Some description of it : " + key + " = " + v;
    case 4: return "Description (units, 2nd) #3 : " + key + " = " + v;
    case 5: return "Description\t:\t" + key + "\t=\t" + v + "\t";
    case 6: return key + " = " + v + "\r";
    default: return key + " = " + v + "   # trailing remark";
  }
}
const int NLAY = 8;
static const std::vector<std::vector<std::string>> CONTEXTS = {
  {}, {"# a comment", "#Nhydro = 77", "  # another : gamma_eos = 9.9", ""}, {"no_such_parameter = 5", "Nothing here", "----------------", ": : :", "a : b"},
  {"not a setting", "%s", "# %s"} };

SCENARIO(setfile, 2, "every parameter x value x line layout x surrounding lines x before/after the run id") {
  boot(); const Key& k = keys()[c.choose((int)keys().size(), "key")];
  const auto& vs = values(k.type);
  const std::string& v = vs[c.choose((int)vs.size(), "value")];
  int lay = c.choose(NLAY, "layout"), ctxt = c.choose(3, "context"); bool after = c.flip("after run_id");
  if (v.find('=') != std::string::npos && (lay == 7)) c.prune();
  if (k.name == "sim" && v == "sm2012sph") c.prune();
  Dir d;
  { std::ofstream f("in.param"); if (!after) for (auto& l : CONTEXTS[ctxt]) f << l << "\n"; if (after && k.name != "run_id") f << "run_id = rid\n";
    f << layout(lay, k.name, v) << "\n"; if (after) for (auto& l : CONTEXTS[ctxt]) f << l << "\n"; if (!after && k.name != "run_id") f << "run_id = rid\n"; }
  Parameters p; p.ReadParamsFile("in.param");
  Model m = defaults(); m.s["run_id"] = "rid"; apply(m, k, v);
  c.step(1); c.interesting();
  compare(c, lay==7 ? "read:trailing-comment" : lay==5||lay==6 ? "read:whitespace" : "read", p, m, "after reading '" + layout(lay, k.name, v) + "'");
  c.state(Hash().s(k.name).s(v).h);
  c.describe(layout(lay, k.name, v));
}
SCENARIO(record, 2, "every parameter x value: recorded to a file and read back exactly, also through GetParameter") {
  boot(); const Key& k = keys()[c.choose((int)keys().size(), "key")]; const auto& vs = values(k.type); const std::string& v = vs[c.choose((int)vs.size(), "value")];
  Dir d; Parameters p; p.SetParameter("run_id", "rid"); p.SetParameter(k.name, v);
  Model m = defaults(); m.s["run_id"] = "rid"; apply(m, k, v);
  compare(c, "set", p, m, "SetParameter");
  std::string g = p.GetParameter(k.name);
  Model mg = defaults(); mg.s["run_id"] = "rid"; apply(mg, k, g);
  if (k.type == 1) c.check(same(mg.f[k.name], m.f[k.name]), "get", "GetParameter(%s) = %s after setting %s", k.name.c_str(), g.c_str(), v.c_str());
  else if (k.type == 0) c.check(mg.i[k.name] == m.i[k.name], "get", "GetParameter(%s) = %s after setting %s", k.name.c_str(), g.c_str(), v.c_str());
  else c.check(g == m.s[k.name], "get", "GetParameter(%s) = %s after setting %s", k.name.c_str(), g.c_str(), v.c_str());
  if (k.name == "run_id") { if (v.find('/') != std::string::npos) c.prune(); }
  p.RecordParametersToFile();
  std::string fn = p.stringparams["run_id"] + ".param"; rename(fn.c_str(), "in.param");
  Parameters q; q.ReadParamsFile("in.param");
  compare(c, "record", q, m, "record of " + k.name + "=" + v + " read back");
  Parameters r(p); compare(c, "copy", r, m, "copy");
  c.step(4); c.interesting();
}
SCENARIO(record_all, 1, "all parameters changed at once, recorded and read back, twice") {
  boot(); int rot = c.choose(16, "rotation"); Dir d; Parameters p; Model m = defaults();
  for (size_t i=0; i<keys().size(); i++) { const Key& k = keys()[i]; if (k.name == "run_id" || k.name == "sim") continue; const auto& vs = values(k.type); const std::string& v = vs[(i*5+rot) % vs.size()]; p.SetParameter(k.name, v); apply(m, k, v); }
  p.SetParameter("run_id","rid"); m.s["run_id"] = "rid";
  compare(c, "set", p, m, "all set");
  p.RecordParametersToFile(); rename("rid.param", "in.param");
  Parameters q; q.ReadParamsFile("in.param"); compare(c, "record", q, m, "all, read back");
  q.RecordParametersToFile(); rename("rid.param", "r2.param"); Parameters r; r.ReadParamsFile("r2.param"); compare(c, "record", r, m, "all, second generation");
  c.step(3); c.interesting();
}
// sequences of programming interface calls on a simulation object
static const std::vector<double> AF = {0.1, 1.0/3.0, 1234567.0, -2.5e-9, 6.67384e-11, 98765.4321};
static const std::vector<int> AI = {0, -3, 1234567, 2147483647};
SCENARIO(api, 3, "every sequence of 3 interface calls (int/float/string/unknown/protected setters) on a simulation, against a map model; then recorded") {
  boot(); int nd = 1 + c.choose(3, "ndim");
  Dir d; Parameters p; p.intparams["ndim"] = nd; p.stringparams["sim"] = c.flip("mfv") ? "meshlessfv" : "sph"; p.stringparams["run_id"] = "rid";
  Model m = model_of(p);
  SimulationBase* sim = SimulationBase::SimulationFactory(nd, p.stringparams["sim"], &p);
  int N = c.thorough ? 3 : 2;
  for (int s=0; s<N; s++) {
    int op = c.choose(8, "op"); c.step(1);
    if (op == 0) { double v = c.pick(AF, "v"); sim->SetParam("gamma_eos", v); m.f["gamma_eos"] = v; }
    else if (op == 1) { double v = c.pick(AF, "v"); sim->SetParam("boxmax[0]", v); m.f["boxmax[0]"] = v; }
    else if (op == 2) { int v = c.pick(AI, "v"); sim->SetParam("Nhydro", v); m.i["Nhydro"] = v; }
    else if (op == 3) { int v = c.pick(AI, "v"); sim->SetParam("tend", v); m.f["tend"] = v; }
    else if (op == 4) { std::string v = c.pick(std::vector<std::string>{"box","/tmp/x.dat","7"}, "v"); sim->SetParam("ic", v); m.s["ic"] = v; }
    else if (op == 5) { if (c.flip()) sim->SetParam("no_such", 5.0); else sim->SetParam("nHydro", std::string("4")); }
    else if (op == 6) { std::string k = c.flip() ? "ndim" : "sim"; bool t = false; try { sim->SetParam(k, std::string("2")); } catch (GandalfError&) { t = true; } c.check(t, "protected", "%s can be changed", k.c_str()); }
    else { bool t = false; try { sim->GetParam("no_such"); } catch (GandalfError&) { t = true; } c.check(t, "unknown-get", "unknown parameter returned"); }
    compare(c, "api", *sim->simparams, m, "after interface calls");
  }
  std::list<std::string>* ks = sim->GetIntAndFloatParameterKeys(); 
  c.check(ks->size() == m.i.size() + m.f.size(), "keys", "key list has %zu entries", ks->size());
  for (auto& k : *ks) { std::string v = sim->GetParam(k); if (m.i.count(k)) c.check(atoi(v.c_str()) == m.i[k], "get", "GetParam(%s)=%s, set %d", k.c_str(), v.c_str(), m.i[k]); else c.check(m.f.count(k) && same(strtod(v.c_str(),0), m.f[k]), "get", "GetParam(%s)=%s, set %.17g", k.c_str(), v.c_str(), m.f[k]); }
  for (auto& x : m.s) c.check(sim->GetParam(x.first) == x.second, "get", "GetParam(%s)", x.first.c_str());
  sim->simparams->RecordParametersToFile(); rename("rid.param", "in.param"); Parameters q; q.ReadParamsFile("in.param"); compare(c, "record", q, m, "record after interface calls");
  sim->ParametersProcessed = true;
  bool t = false; try { sim->SetParam("gamma_eos", 1.9); } catch (GandalfError&) { t = true; } c.check(t, "locked", "parameter changed after the run was set up"); compare(c, "locked", *sim->simparams, m, "after locking");
  c.interesting(); c.state(Hash().d(m.f["gamma_eos"]).d(m.f["boxmax[0]"]).i(m.i["Nhydro"]).d(m.f["tend"]).s(m.s["ic"]).h);
}
SCENARIO(order, 2, "pairs of settings in either order, repeated settings (the last one counts), unknown names change nothing") {
  boot(); static const std::vector<std::string> names = {"Nhydro","Nhydromax","gamma_eos","tend","ic","boundary_lhs[0]","boxmin[0]","run_id","in_file"};
  auto type = [&](const std::string& n) { return defaults().i.count(n) ? 0 : defaults().f.count(n) ? 1 : 2; };
  const std::string& a = c.pick(names,"a"); const std::string& b = c.pick(names,"b"); 
  const std::string& va = c.pick(values(type(a)),"va"); const std::string& vb = c.pick(values(type(b)),"vb");
  Dir d; int lay = c.choose(4, "layout"); bool junk = c.flip("unknown between");
  { std::ofstream f("in.param"); f << "run_id = rid\n" << layout(lay, a, va) << "\n"; if (junk) f << a << "x = 99\nx" << b << " = 98\n" << (char)toupper(a[0]) << "_ = 3\n"; f << layout(3-lay, b, vb) << "\n"; }
  Parameters p; p.SetParameter("tend", "77.25"); p.ReadParamsFile("in.param");      // reading starts from the defaults
  Model m = defaults(); m.s["run_id"]="rid"; apply(m, {a,type(a)}, va); apply(m, {b,type(b)}, vb);
  compare(c, "order", p, m, a+"="+va+", "+b+"="+vb); c.step(1); c.interesting();
}
SCENARIO(errors, 1, "missing file, missing run id, unknown key, overlapping tables") {
  boot(); int k = c.choose(4); Dir d; Parameters p; bool t = false; c.interesting(); c.step(1);
  if (k == 0) { try { p.ReadParamsFile("nosuch.param"); } catch (GandalfError&) { t = true; } c.check(t, "errors", "missing file accepted"); }
  else if (k == 1) { { std::ofstream f("in.param"); f << "Nhydro = 5\n"; } try { p.ReadParamsFile("in.param"); } catch (GandalfError&) { t = true; } c.check(t, "errors", "missing run id accepted"); }
  else if (k == 2) { try { p.GetParameter("nosuch"); } catch (GandalfError&) { t = true; } c.check(t, "errors", "unknown key returned"); }
  else { for (auto& x : defaults().i) c.check(!defaults().f.count(x.first) && !defaults().s.count(x.first), "errors", "%s has two types", x.first.c_str()); for (auto& x : defaults().f) c.check(!defaults().s.count(x.first), "errors", "%s has two types", x.first.c_str()); }
}
}
int main(int a, char** v) { return mc::main(a, v); }
