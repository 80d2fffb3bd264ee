// Builds a stencil solution from an s-expression description using only the
// public YASK compiler API, then writes compiler output.
//   mkstencil SPEC OUT [more-ops]
// Spec forms:
//  (solution NAME) (desc TEXT) (opts "CMDLINE") (step t) (dims x y) (misc m)
//  (setdims x y) (setstep t) (fold x 2)
//  (var NAME x t ...) (scratch NAME x ...) (dyn NAME) (stepalloc NAME n)
//  (eq LHS RHS [DCOND|nil] [SCOND|nil])   (flow EQI EQJ) (nodep)
// Ops after the spec (also forms):
//  (out TARGET FILE)  output_solution   (fmt)  print equations with format_simple
//  (shipped NAME RADIUS)  use a registered solution instead of a new one.
#include "yask_compiler_api.hpp"
#include <fstream>
#include <iostream>
#include <sstream>
#include <cstdlib>
using namespace yask; using namespace std;
struct N { string a; bool str=false; vector<N> l; bool leaf=false; };
static string S; static size_t P=0;
static void ws(){ while(P<S.size() && isspace((unsigned char)S[P])) P++; }
static N parse(){ ws(); N n; if(S[P]=='('){P++; for(;;){ws(); if(P>=S.size()) {cerr<<"parse error\n"; exit(99);} if(S[P]==')'){P++;break;} n.l.push_back(parse());} }
  else if(S[P]=='"'){P++; n.leaf=n.str=true; while(S[P]!='"') n.a+=S[P++]; P++;}
  else {n.leaf=true; while(P<S.size() && !isspace((unsigned char)S[P]) && S[P]!='(' && S[P]!=')') n.a+=S[P++];} return n; }
static yc_factory cf; static yc_node_factory nf; static yc_solution_ptr soln;
static map<string,yc_index_node_ptr> idx; static map<string,yc_var_ptr> vars; static vector<yc_equation_node_ptr> eqs;
static map<string,yc_number_node_ptr> shared_exprs;
static yc_bool_node_ptr bex(const N& n);
static yc_number_node_ptr ex(const N& n){
  if(n.leaf){ auto it=idx.find(n.a); if(it!=idx.end()) return it->second;
     auto s=shared_exprs.find(n.a); if(s!=shared_exprs.end()) return s->second;
     char*e; double d=strtod(n.a.c_str(),&e); if(*e){cerr<<"bad atom "<<n.a<<endl; exit(99);} return nf.new_const_number_node(d); }
  const string& o=n.l.at(0).a;
  if(o=="p"){ vector<yc_number_node_ptr> v; for(size_t i=2;i<n.l.size();i++) v.push_back(ex(n.l[i])); return vars.at(n.l.at(1).a)->new_var_point(v);}
  if(o=="+"||o=="*"){ auto r=ex(n.l.at(1)); for(size_t i=2;i<n.l.size();i++) r = o=="+"? nf.new_add_node(r,ex(n.l[i])) : nf.new_multiply_node(r,ex(n.l[i])); return r;}
  if(o=="-") return nf.new_subtract_node(ex(n.l.at(1)),ex(n.l.at(2)));
  if(o=="/") return nf.new_divide_node(ex(n.l.at(1)),ex(n.l.at(2)));
  if(o=="%") return nf.new_mod_node(ex(n.l.at(1)),ex(n.l.at(2)));
  if(o=="neg") return nf.new_negate_node(ex(n.l.at(1)));
  if(o=="first") return nf.new_first_domain_index(idx.at(n.l.at(1).a));
  if(o=="last") return nf.new_last_domain_index(idx.at(n.l.at(1).a));
  if(o=="clone") return ex(n.l.at(1))->clone_ast();
#define F1(f) if(o==#f) return yask::f(ex(n.l.at(1)));
  F1(sqrt) F1(cbrt) F1(fabs) F1(erf) F1(exp) F1(log) F1(sin) F1(cos) F1(atan)
#define F2(f) if(o==#f) return yask::f(ex(n.l.at(1)),ex(n.l.at(2)));
  F2(pow) F2(min) F2(max)
  cerr<<"bad op "<<o<<endl; exit(99);
}
static yc_bool_node_ptr bex(const N& n){
  if(n.leaf) { if(n.a=="nil") return nullptr; cerr<<"bad bool\n"; exit(99);} const string& o=n.l.at(0).a;
  if(o=="&&") return nf.new_and_node(bex(n.l.at(1)),bex(n.l.at(2)));
  if(o=="||") return nf.new_or_node(bex(n.l.at(1)),bex(n.l.at(2)));
  if(o=="!") return nf.new_not_node(bex(n.l.at(1)));
  auto a=ex(n.l.at(1)), b=ex(n.l.at(2));
  if(o=="==") return nf.new_equals_node(a,b); if(o=="!=") return nf.new_not_equals_node(a,b);
  if(o=="<") return nf.new_less_than_node(a,b); if(o==">") return nf.new_greater_than_node(a,b);
  if(o=="<=") return nf.new_not_greater_than_node(a,b); if(o==">=") return nf.new_not_less_than_node(a,b);
  cerr<<"bad bool op "<<o<<endl; exit(99);
}
int main(int argc,char**argv){
  ifstream f(argv[1]); stringstream ss; ss<<f.rdbuf(); S=ss.str();
  yask_output_factory of;
  int lineno=0;
  for(;;){ ws(); if(P>=S.size()) break; N n=parse(); lineno++; const string& o=n.l.at(0).a;
   try {
    if(o=="solution"){ soln=cf.new_solution(n.l.at(1).a); soln->set_debug_output(of.new_null_output()); }
    else if(o=="shipped"){ auto& m=yc_solution_base::get_registry(); auto it=m.find(n.l.at(1).a); if(it==m.end()){cerr<<"no stencil\n"; exit(99);}
       auto sp=it->second; if(auto r=dynamic_cast<yc_solution_with_radius_base*>(sp)){ int rad=atoi(n.l.at(2).a.c_str()); if(rad>=0) r->set_radius(rad);}
       soln=sp->get_soln(); soln->set_debug_output(of.new_null_output()); sp->define(); }
    else if(o=="shippedlist"){ for(auto& i: yc_solution_base::get_registry()) cout<<"SHIPPED "<<i.first<<" "<<(dynamic_cast<yc_solution_with_radius_base*>(i.second)?1:0)<<"\n"; }
    else if(o=="desc") soln->set_description(n.l.at(1).a);
    else if(o=="opts"){ auto r=soln->apply_command_line_options(n.l.at(1).a); if(r.length()) cout<<"REM "<<r<<"\n"; }
    else if(o=="elem") soln->set_element_bytes(atoi(n.l.at(1).a.c_str()));
    else if(o=="target") soln->set_target(n.l.at(1).a);
    else if(o=="fold") soln->set_fold_len(idx.at(n.l.at(1).a),atoi(n.l.at(2).a.c_str()));
    else if(o=="clearfold") soln->clear_folding();
    else if(o=="prefetch") soln->set_prefetch_dist(atoi(n.l.at(1).a.c_str()),atoi(n.l.at(2).a.c_str()));
    else if(o=="step") idx[n.l.at(1).a]=nf.new_step_index(n.l.at(1).a);
    else if(o=="dims") for(size_t i=1;i<n.l.size();i++) idx[n.l[i].a]=nf.new_domain_index(n.l[i].a);
    else if(o=="misc") for(size_t i=1;i<n.l.size();i++) idx[n.l[i].a]=nf.new_misc_index(n.l[i].a);
    else if(o=="setdims"){ vector<yc_index_node_ptr> v; for(size_t i=1;i<n.l.size();i++) v.push_back(idx.at(n.l[i].a)); soln->set_domain_dims(v);}
    else if(o=="setstep") soln->set_step_dim(idx.at(n.l.at(1).a));
    else if(o=="var"||o=="scratch"){ vector<yc_index_node_ptr> v; for(size_t i=2;i<n.l.size();i++) v.push_back(idx.at(n.l[i].a));
       vars[n.l.at(1).a]= o=="var"? soln->new_var(n.l.at(1).a,v) : soln->new_scratch_var(n.l.at(1).a,v); }
    else if(o=="dyn") vars.at(n.l.at(1).a)->set_dynamic_step_alloc(true);
    else if(o=="stepalloc") vars.at(n.l.at(1).a)->set_step_alloc_size(atoi(n.l.at(2).a.c_str()));
    else if(o=="let") shared_exprs[n.l.at(1).a]=ex(n.l.at(2));
    else if(o=="eq"){ auto l=dynamic_pointer_cast<yc_var_point_node>(ex(n.l.at(1))); auto e=nf.new_equation_node(l,ex(n.l.at(2)), n.l.size()>3? bex(n.l[3]):nullptr);
       if(n.l.size()>4){ auto c=bex(n.l[4]); if(c) e->set_step_cond(c);} eqs.push_back(e); }
    else if(o=="nodep") soln->set_dependency_checker_enabled(false);
    else if(o=="flow") soln->add_flow_dependency(eqs.at(atoi(n.l.at(1).a.c_str())),eqs.at(atoi(n.l.at(2).a.c_str())));
    else if(o=="cleardeps") soln->clear_dependencies();
    else if(o=="out"){ soln->set_target(n.l.at(1).a); auto so=of.new_string_output(); soln->output_solution(so); ofstream(n.l.at(2).a)<<so->get_string(); }
    else if(o=="fmt"){ for(auto& e: soln->get_equations()) cout<<"EQ "<<e->format_simple()<<" ## "<<e->get_num_nodes()<<"\n"; }
    else if(o=="cloneall"){ vector<string> r; for(auto& e: soln->get_equations()) r.push_back(e->clone_ast()->format_simple()); for(auto&x:r) cout<<"CL "<<x<<"\n"; }
    else if(o=="info"){ cout<<"NAME "<<soln->get_name()<<"\nDESC "<<soln->get_description()<<"\nNEQ "<<soln->get_num_equations()<<"\nNVAR "<<soln->get_num_vars()<<"\n";
       for(auto v: soln->get_vars()){ cout<<"VAR "<<v->get_name()<<" "<<v->is_dynamic_step_alloc()<<" "<<v->get_step_alloc_size(); for(auto& d: v->get_dim_names()) cout<<" "<<d; cout<<"\n";} 
       cout<<"ELEM "<<soln->get_element_bytes()<<"\nTGT "<<soln->get_target()<<"\nVALS "; auto s=soln->get_command_line_values(); for(char c: s) cout<<(c=='\n'?'|':c); cout<<"\n"; }
    else if(o=="try"){ // (try FORM): report exception but continue.
       cerr<<"nested try unsupported\n"; exit(99);}
    else { cerr<<"bad form "<<o<<endl; exit(99);}
    if(getenv("MK_VERBOSE")) cout<<"OK "<<lineno<<" "<<o<<"\n";
   } catch(yask_exception& e){ cout<<"EX "<<lineno<<" "<<o<<" "<<e.get_message()<<endl; if(!getenv("MK_CONTINUE")) return 3; }
  }
  return 0;
}
