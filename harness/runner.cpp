// Executes a script of public YASK kernel-API calls, one op per line; writes one
// result line per op:  "<lineno> ok <values>"  or  "<lineno> ex <message>".
//   runner SCRIPT OUTPREFIX      (rank r writes OUTPREFIX.r; dumps go to <file>.r)
#include "mpi.h"
#include "yask_kernel_api.hpp"
#include <fstream>
#include <iostream>
#include <sstream>
#include <cstring>
#include <cstdlib>
#include <cmath>
#include <omp.h>
// YASK needs shared windows that begin on a cache line, which it checks; Open MPI 4.1 begins them 8 bytes past one.
extern "C" int MPI_Win_allocate_shared(MPI_Aint n,int du,MPI_Info info,MPI_Comm c,void*bp,MPI_Win*w){
  int r=PMPI_Win_allocate_shared(n+64,du,info,c,bp,w); size_t p=*(size_t*)bp; *(size_t*)bp=(p+63)/64*64; return r; }
extern "C" int MPI_Win_shared_query(MPI_Win w,int rank,MPI_Aint*n,int*du,void*bp){
  int r=PMPI_Win_shared_query(w,rank,n,du,bp); size_t p=*(size_t*)bp; *(size_t*)bp=(p+63)/64*64; *n-=64; return r; }
using namespace yask; using namespace std;
typedef uint64_t u64;
static u64 mix(u64 x){ x^=x>>30; x*=0xbf58476d1ce4e5b9ULL; x^=x>>27; x*=0x94d049bb133111ebULL; x^=x>>31; return x; }
static u64 fnv(const string&s){ u64 h=0xcbf29ce484222325ULL; for(unsigned char c: s){h^=c; h*=0x100000001b3ULL;} return h; }
static double val_of(u64 h,int mode){
  switch(mode){ case 0: return double((long long)(h%33))-16; case 1: return 0.5+double(h>>42)/4194304.0;
   case 2: return 1.0+double(h%4); case 3: return double((long long)(h%5))-2; case 4: return double(h%2); case 6: return -0.5-double(h>>42)/4194304.0; case 7: return double((long long)(h%2000003)-1000001)/7.0; default: return double((long long)(h%2001))-1000; } }
static idx_t imod(idx_t a, idx_t b){ idx_t m=a%b; return m<0? m+b: m; }
static yk_factory fac; static yk_env_ptr env; static map<string,yk_solution_ptr> S; static map<string,yk_var_ptr> extra; static map<string,vector<yk_var_ptr>> keep;
static ofstream out; static int rnk; static string hooklog; static map<string,yask_string_output_ptr> outs; static map<string,double*> raws;
static vector<string> toks(const string& l){ vector<string> r; size_t i=0; while(i<l.size()){ while(i<l.size()&&isspace((unsigned char)l[i])) i++; if(i>=l.size()) break;
   string t; if(l[i]=='"'){ i++; while(i<l.size()&&l[i]!='"') t+=l[i++]; i++; } else while(i<l.size()&&!isspace((unsigned char)l[i])) t+=l[i++]; r.push_back(t);} return r; }
static idx_t I(const string&s){ char*e; idx_t v=strtoll(s.c_str(),&e,10); if(*e||s.empty()) {cerr<<"bad int '"<<s<<"'\n"; exit(99);} return v; }
static double D(const string&s){ return strtod(s.c_str(),0); }
static idx_t_vec IV(const string&s){ idx_t_vec v; if(s=="-"||s.empty()) return v; stringstream ss(s); string t; while(getline(ss,t,',')) v.push_back(I(t)); return v; }
static string_vec SV(const string&s){ string_vec v; if(s=="-") return v; stringstream ss(s); string t; while(getline(ss,t,',')) v.push_back(t); return v; }
static string fv(const idx_t_vec&v){ string r; for(size_t i=0;i<v.size();i++) r+=(i?",":"")+to_string(v[i]); return r.empty()?"-":r; }
static string fsv(const string_vec&v){ string r; for(size_t i=0;i<v.size();i++) r+=(i?",":"")+v[i]; return r.empty()?"-":r; }
static string hexd(double d){ char b[64]; snprintf(b,64,"%.17g",d); return b; }
static string esc(const string&s){ string r; for(char c: s) r+= (c=='\n'?'|':c); return r; }
struct Dim{ string n; char ty; idx_t fl,ll,df,dl,hl,hr; };
static vector<Dim> dims_of(yk_solution_ptr s, yk_var_ptr v){ vector<Dim> r; auto dd=s->get_domain_dim_names(); auto st=s->get_step_dim_name();
  for(auto& d: v->get_dim_names()){ Dim x; x.n=d; x.df=x.dl=x.hl=x.hr=0; bool dom=false; for(auto& q: dd) if(q==d) dom=true;
    if(v->is_fixed_size()) dom=false;
    if(d==st){ x.ty='s'; x.fl=v->get_first_valid_step_index(); x.ll=v->get_last_valid_step_index(); x.df=x.fl; x.dl=x.ll; }
    else if(dom){ x.ty='d'; x.fl=v->get_first_local_index(d); x.ll=v->get_last_local_index(d); x.df=v->get_first_rank_domain_index(d); x.dl=v->get_last_rank_domain_index(d); x.hl=v->get_left_halo_size(d); x.hr=v->get_right_halo_size(d);} 
    else { x.ty='m'; x.fl=v->get_first_local_index(d); x.ll=v->get_last_local_index(d); x.df=x.fl; x.dl=x.ll; }
    r.push_back(x);} return r; }
static yk_var_ptr VAR(const vector<string>&a){ auto k=a.at(1)+"."+a.at(2); auto it=extra.find(k); if(it!=extra.end()) return it->second; return S.at(a.at(1))->get_var(a.at(2)); }
// Fill one var: seed, mode; base = first step idx to fill (or "v" for current valid range); poison!=0: elements inside the
// overall domain but outside this rank's domain get junk.
static idx_t fill(yk_solution_ptr s, yk_var_ptr v, u64 seed, int mode, const string& base, bool poison){
  auto ds=dims_of(s,v); size_t nd=ds.size(); idx_t cnt=0; u64 h0=mix((seed+1)*0x9E3779B97F4A7C15ULL ^ fnv(v->get_name()));
  if(!v->is_storage_allocated()) return 0;
  idx_t alloc=1; int sp=-1; for(size_t i=0;i<nd;i++) if(ds[i].ty=='s'){ sp=i; alloc=v->get_alloc_size(ds[i].n); if(base!="v"){ ds[i].fl=I(base); ds[i].ll=ds[i].fl+alloc-1; } }
  if(nd==0){ v->set_element(val_of(h0,mode),idx_t_vec()); return 1; }
  vector<idx_t> gsz(nd,0); for(size_t i=0;i<nd;i++) if(ds[i].ty=='d') gsz[i]=s->get_overall_domain_size(ds[i].n);
  idx_t_vec f(nd),l(nd); idx_t n=1; for(size_t i=0;i<nd;i++){ f[i]=ds[i].fl; l[i]=ds[i].ll; if((int)i!=sp) n*=l[i]-f[i]+1; }
  idx_t t0=sp>=0?ds[sp].fl:0, t1=sp>=0?ds[sp].ll:0; vector<double> buf(n);
  for(idx_t t=t0;t<=t1;t++){ if(sp>=0) f[sp]=l[sp]=t; idx_t_vec ix=f; 
    for(idx_t k=0;k<n;k++){ u64 h=h0; bool own=true, glob=true; for(size_t i=0;i<nd;i++){ idx_t q=ix[i]; if((int)i==sp) q=imod(q,alloc); h=mix(h ^ ((u64)q*0x9E3779B97F4A7C15ULL+0x1234567ULL));
          if(ds[i].ty=='d'){ if(ix[i]<ds[i].df||ix[i]>ds[i].dl) own=false; if(ix[i]<0||ix[i]>=gsz[i]) glob=false; } }
      buf[k]= (poison && glob && !own)? -12345678.0-double(rnk) : val_of(h,mode);
      for(int i=nd-1;i>=0;i--){ if(++ix[i]<=l[i]) break; ix[i]=f[i]; } }
    cnt+=v->set_elements_in_slice(buf.data(),buf.size(),f,l); }
  return cnt; }
static void dump(yk_solution_ptr s, const vector<yk_var_ptr>& vs, const string& fn){
  ofstream o(fn+"."+to_string(rnk),ios::binary);
  for(auto v: vs){ bool al=v->is_storage_allocated(); auto ds= al? dims_of(s,v) : vector<Dim>(); o<<"VAR "<<v->get_name()<<" "<<(al?(int)ds.size():-1);
    idx_t n=al?1:0; idx_t_vec f,l; for(auto& d: ds){ o<<" "<<d.n<<" "<<d.ty<<" "<<d.fl<<" "<<d.ll<<" "<<d.df<<" "<<d.dl<<" "<<d.hl<<" "<<d.hr<<" "<<v->get_alloc_size(d.n); n*=d.ll-d.fl+1; f.push_back(d.fl); l.push_back(d.ll);} o<<"\n";
    if(!n) continue; vector<double> b(n); if(ds.empty()) b[0]=v->get_element(idx_t_vec()); else v->get_elements_in_slice(b.data(),b.size(),f,l);
    o.write((char*)b.data(),n*sizeof(double)); } }
static string exec(const vector<string>& a);
static void hook_run(const string& tag, const string& cmd){ hooklog+="["+tag+"]"; if(cmd.size()) exec(toks(cmd)); }
static vector<double> make_buf(size_t n,u64 seed,int mode){ vector<double> b(n); for(size_t i=0;i<n;i++) b[i]=val_of(mix(mix(seed)^(i*0x9E3779B97F4A7C15ULL)),mode); return b; }
static string exec(const vector<string>& a){
  const string& o=a.at(0); auto n=a.size(); ostringstream r;
  auto SS=[&]{ return S.at(a.at(1)); };
  if(o=="soln"){ S[a[1]]=nullptr; S[a[1]]=fac.new_solution(env); }
  else if(o=="solnfrom"){ auto src=S.at(a[2]); S[a[1]]=fac.new_solution(env,src); }
  else if(o=="del"){ S.erase(a[1]); for(auto it=extra.begin();it!=extra.end();) if(it->first.substr(0,a[1].size()+1)==a[1]+".") it=extra.erase(it); else ++it; }
  else if(o=="opts") r<<'"'<<SS()->apply_command_line_options(a[2])<<'"';
  else if(o=="optv"){ string_vec v(a.begin()+2,a.end()); r<<'"'<<SS()->apply_command_line_options(v)<<'"'; }
  else if(o=="values") r<<esc(SS()->get_command_line_values());
  else if(o=="help") r<<SS()->get_command_line_help().size();
  else if(o=="set"){ auto&w=a[2]; auto&d=a[3]; idx_t x=I(a[4]); auto s=SS(); 
    if(w=="rank_domain_size") s->set_rank_domain_size(d,x); else if(w=="overall_domain_size") s->set_overall_domain_size(d,x); else if(w=="block_size") s->set_block_size(d,x);
    else if(w=="num_ranks") s->set_num_ranks(d,x); else if(w=="rank_index") s->set_rank_index(d,x); else if(w=="min_pad_size") s->set_min_pad_size(d,x); else {cerr<<"bad set\n"; exit(99);} }
  else if(o=="setv"){ auto&w=a[2]; auto x=IV(a[3]); auto s=SS();
    if(w=="rank_domain_size") s->set_rank_domain_size_vec(x); else if(w=="overall_domain_size") s->set_overall_domain_size_vec(x); else if(w=="block_size") s->set_block_size_vec(x);
    else if(w=="num_ranks") s->set_num_ranks_vec(x); else if(w=="rank_index") s->set_rank_index_vec(x); else {cerr<<"bad setv\n"; exit(99);} }
  else if(o=="get"){ auto&w=a[2]; auto&d=a[3]; auto s=SS();
    if(w=="rank_domain_size") r<<s->get_rank_domain_size(d); else if(w=="overall_domain_size") r<<s->get_overall_domain_size(d); else if(w=="block_size") r<<s->get_block_size(d);
    else if(w=="num_ranks") r<<s->get_num_ranks(d); else if(w=="rank_index") r<<s->get_rank_index(d); else if(w=="min_pad_size") r<<s->get_min_pad_size(d);
    else if(w=="first_rank_domain_index") r<<s->get_first_rank_domain_index(d); else if(w=="last_rank_domain_index") r<<s->get_last_rank_domain_index(d); else {cerr<<"bad get\n"; exit(99);} }
  else if(o=="getv"){ auto&w=a[2]; auto s=SS();
    if(w=="rank_domain_size") r<<fv(s->get_rank_domain_size_vec()); else if(w=="overall_domain_size") r<<fv(s->get_overall_domain_size_vec()); else if(w=="block_size") r<<fv(s->get_block_size_vec());
    else if(w=="num_ranks") r<<fv(s->get_num_ranks_vec()); else if(w=="rank_index") r<<fv(s->get_rank_index_vec());
    else if(w=="first_rank_domain_index") r<<fv(s->get_first_rank_domain_index_vec()); else if(w=="last_rank_domain_index") r<<fv(s->get_last_rank_domain_index_vec()); else {cerr<<"bad getv\n"; exit(99);} }
  else if(o=="geom"){ auto s=SS(); r<<fv(s->get_overall_domain_size_vec())<<" "<<fv(s->get_rank_domain_size_vec())<<" "<<fv(s->get_first_rank_domain_index_vec())<<" "<<fv(s->get_last_rank_domain_index_vec())<<" "<<fv(s->get_num_ranks_vec())<<" "<<fv(s->get_rank_index_vec()); }
  else if(o=="prepare") SS()->prepare_solution();
  else if(o=="run"){ if(n>3) SS()->run_solution(I(a[2]),I(a[3])); else SS()->run_solution(I(a[2])); }
  else if(o=="end") SS()->end_solution();
  else if(o=="exchange") SS()->exchange_halos();
  else if(o=="todev") SS()->copy_vars_to_device();
  else if(o=="fromdev") SS()->copy_vars_from_device();
  else if(o=="stats"){ auto st=SS()->get_stats(); r<<st->get_num_elements()<<" "<<st->get_num_steps_done()<<" "<<st->get_num_writes_done()<<" "<<st->get_est_fp_ops_done()<<" "<<hexd(st->get_elapsed_secs()); }
  else if(o=="clearstats") SS()->clear_stats();
  else if(o=="tuner") SS()->reset_auto_tuner(I(a[2]),false);
  else if(o=="tuning") r<<SS()->is_auto_tuner_enabled();
  else if(o=="tunenow") SS()->run_auto_tuner_now(false);
  else if(o=="wrap") SS()->set_step_wrap(I(a[2]));
  else if(o=="getwrap") r<<SS()->get_step_wrap();
  else if(o=="fuse") SS()->fuse_vars(S.at(a[2]));
  else if(o=="fusenull") SS()->fuse_vars(nullptr);
  else if(o=="numa"){ r<<SS()->set_default_numa_preferred(I(a[2])); }
  else if(o=="sinfo"){ auto s=SS(); r<<s->get_name()<<" \""<<s->get_description()<<"\" "<<s->get_target()<<" "<<s->get_element_bytes()<<" "<<s->get_step_dim_name()<<" "<<fsv(s->get_domain_dim_names())<<" "<<fsv(s->get_misc_dim_names())<<" "<<s->get_num_vars()<<" "<<s->is_offloaded(); }
  else if(o=="vars"){ for(auto v: SS()->get_vars()){ r<<v->get_name()<<":"<<fsv(v->get_dim_names())<<" "; } }
  else if(o=="threads") r<<SS()->get_num_outer_threads()<<" "<<SS()->get_num_inner_threads();
  else if(o=="fill"){ // fill S V seed mode base poison ; V=* for all
    auto s=SS(); idx_t c=0; if(a[2]=="*") for(auto v: s->get_vars()) c+=fill(s,v,I(a[3]),I(a[4]),a[5],I(a[6])); else c=fill(s,VAR(a),I(a[3]),I(a[4]),a[5],I(a[6])); r<<c; }
  else if(o=="dump"){ if(a.size()>3){ dump(SS(),{VAR({"",a[1],a[3]})},a[2]); } else dump(SS(),SS()->get_vars(),a[2]); }
  else if(o=="hook"){ auto s=SS(); string w=a[2],tag=a[3],cmd=n>4?a[4]:""; for(auto&c: cmd) if(c=='\'') c='"';
    if(w=="bp") s->call_before_prepare_solution([=](yk_solution&q){ hook_run(tag,cmd); }); else if(w=="ap") s->call_after_prepare_solution([=](yk_solution&){ hook_run(tag,cmd); });
    else if(w=="br") s->call_before_run_solution([=](yk_solution&,idx_t x,idx_t y){ hook_run(tag+":"+to_string(x)+":"+to_string(y),cmd); }); else s->call_after_run_solution([=](yk_solution&,idx_t x,idx_t y){ hook_run(tag+":"+to_string(x)+":"+to_string(y),cmd); }); }
  else if(o=="hooklog"){ r<<(hooklog.empty()?"-":hooklog); hooklog.clear(); }
  else if(o=="newvar"){ extra[a[1]+"."+a[2]]=SS()->new_var(a[2],SV(a[3])); }
  else if(o=="newfixed"){ extra[a[1]+"."+a[2]]=SS()->new_fixed_size_var(a[2],SV(a[3]),IV(a[4])); }
  else if(o=="getvar"){ SS()->get_var(a[2]); }
  else if(o=="keep"){ keep["k"].push_back(VAR(a)); extra[a[1]+"."+a[2]]=keep["k"].back(); }
  else if(o=="vset") r<<VAR(a)->set_element(D(a[3]),IV(a[4]),I(a[5]));
  else if(o=="vown"||o=="vallr"){ // vown S V val mode first last : set the part of a slice that this rank owns (vallr: that it holds at all)
    auto v=VAR(a); double x=D(a[3]); int mode=I(a[4]); auto f=IV(a[5]), l=IV(a[6]); auto ds=dims_of(SS(),v); bool any=true;
    for(size_t i=0;i<ds.size();i++) if(ds[i].ty=='d'){ bool w=o=="vallr"; f[i]=max(f[i],w?ds[i].fl:ds[i].df); l[i]=min(l[i],w?ds[i].ll:ds[i].dl); if(f[i]>l[i]) any=false; }
    if(!any) r<<0; else { idx_t n=1; for(size_t i=0;i<f.size();i++) n*=l[i]-f[i]+1;
      if(mode==1) r<<v->set_elements_in_slice_same(x,f,l,true);
      else if(mode==2){ vector<double> b(n,x); r<<v->set_elements_in_slice(b.data(),n,f,l); }
      else if(mode==3){ vector<float> b(n,(float)x); r<<v->set_elements_in_slice(b.data(),n,f,l); }
      else { auto ix=f; for(idx_t k=0;k<n;k++){ if(mode==4) { v->set_element(x*2,ix,true); v->add_to_element(-x,ix,true); } else v->set_element(x,ix,true);
          for(int i=(int)f.size()-1;i>=0;i--){ if(++ix[i]<=l[i]) break; ix[i]=f[i]; } } r<<n; } } }
  else if(o=="vget") r<<hexd(VAR(a)->get_element(IV(a[3])));
  else if(o=="vadd") r<<VAR(a)->add_to_element(D(a[3]),IV(a[4]),I(a[5]));
  else if(o=="vall") VAR(a)->set_all_elements_same(D(a[3]));
  else if(o=="vsame") r<<VAR(a)->set_elements_in_slice_same(D(a[3]),IV(a[4]),IV(a[5]),I(a[6]));
  else if(o=="vsetd"||o=="vsetf"||o=="vsetv"){ // vsetd S V first last nbuf seed mode
    auto b=make_buf(max<idx_t>(I(a[5]),1),I(a[6]),I(a[7])); idx_t nb=I(a[5]); auto v=VAR(a);
    if(o=="vsetd") r<<v->set_elements_in_slice(b.data(),nb,IV(a[3]),IV(a[4])); else if(o=="vsetf"){ vector<float> f(b.begin(),b.end()); r<<v->set_elements_in_slice(f.data(),nb,IV(a[3]),IV(a[4])); }
    else { if(S.at(a[1])->get_element_bytes()==8) r<<v->set_elements_in_slice((void*)b.data(),IV(a[3]),IV(a[4])); else { vector<float> f(b.begin(),b.end()); r<<v->set_elements_in_slice((void*)f.data(),IV(a[3]),IV(a[4])); } } }
  else if(o=="vgetd"||o=="vgetf"||o=="vgetv"){ // vgetd S V first last nbuf
    idx_t nb=I(a[5]); vector<double> b(nb+1,-98765.0); vector<float> f(nb+1,-98765.0f); auto v=VAR(a); idx_t c; bool isd=true;
    if(o=="vgetd") c=v->get_elements_in_slice(b.data(),nb,IV(a[3]),IV(a[4])); else if(o=="vgetf"){ isd=false; c=v->get_elements_in_slice(f.data(),nb,IV(a[3]),IV(a[4])); }
    else if(S.at(a[1])->get_element_bytes()==8) c=v->get_elements_in_slice((void*)b.data(),IV(a[3]),IV(a[4])); else { isd=false; c=v->get_elements_in_slice((void*)f.data(),IV(a[3]),IV(a[4])); }
    r<<c; for(idx_t i=0;i<=nb;i++) r<<" "<<hexd(isd?b[i]:f[i]); }
  else if(o=="vred"){ auto q=VAR(a)->reduce_elements_in_slice(I(a[3]),IV(a[4]),IV(a[5]),I(a[6])); int m=q->get_reduction_mask(); r<<m<<" "<<q->get_num_elements_reduced();
    r<<" "<<((m&1)?hexd(q->get_sum()):"-")<<" "<<((m&2)?hexd(q->get_sum_squares()):"-")<<" "<<((m&4)?hexd(q->get_product()):"-")<<" "<<((m&8)?hexd(q->get_max()):"-")<<" "<<((m&16)?hexd(q->get_min()):"-"); }
  else if(o=="vredget"){ auto q=VAR(a)->reduce_elements_in_slice(I(a[3]),IV(a[4]),IV(a[5]),I(a[6])); string w=a[7]; r<<hexd(w=="sum"?q->get_sum():w=="ssq"?q->get_sum_squares():w=="prod"?q->get_product():w=="max"?q->get_max():q->get_min()); }
  else if(o=="vloc") r<<VAR(a)->are_indices_local(IV(a[3]));
  else if(o=="vfmt") r<<VAR(a)->format_indices(IV(a[3]));
  else if(o=="vinfo"){ auto v=VAR(a); auto s=SS(); r<<v->get_num_dims()<<" "<<v->get_num_domain_dims()<<" "<<v->is_fixed_size()<<" "<<v->is_storage_allocated()<<" "<<v->get_num_storage_bytes()<<" "<<v->get_num_storage_elements()<<" "<<v->is_dynamic_step_alloc()<<" "<<v->get_halo_exchange_l1_norm(); }
  else if(o=="vdims"){ auto v=VAR(a); for(auto& d: dims_of(SS(),v)) r<<d.n<<" "<<d.ty<<" "<<d.fl<<" "<<d.ll<<" "<<d.df<<" "<<d.dl<<" "<<d.hl<<" "<<d.hr<<" "<<v->get_alloc_size(d.n)<<" ; "; }
  else if(o=="vfn"){ auto v=VAR(a); auto&w=a[3]; auto d=n>4?a[4]:string(); 
#define G(f) if(w==#f) r<<v->get_##f(d); else
    G(first_local_index) G(last_local_index) G(alloc_size) G(rank_domain_size) G(first_rank_domain_index) G(last_rank_domain_index) G(left_halo_size) G(right_halo_size)
    G(first_rank_halo_index) G(last_rank_halo_index) G(left_pad_size) G(right_pad_size) G(left_extra_pad_size) G(right_extra_pad_size) G(first_misc_index) G(last_misc_index)
#define GV(f) if(w==#f) r<<fv(v->get_##f()); else
    GV(first_local_index_vec) GV(last_local_index_vec) GV(alloc_size_vec) GV(rank_domain_size_vec) GV(first_rank_domain_index_vec) GV(last_rank_domain_index_vec) GV(first_rank_halo_index_vec) GV(last_rank_halo_index_vec)
    if(w=="first_valid_step_index") r<<v->get_first_valid_step_index(); else if(w=="last_valid_step_index") r<<v->get_last_valid_step_index();
    else if(w=="is_dim_used") r<<v->is_dim_used(d); else {cerr<<"bad vfn "<<w<<"\n"; exit(99);} }
  else if(o=="vgeo"){ // vgeo S V : every geometry getter for every dim (x if it throws), then the vector forms
    auto v=VAR(a); idx_t y;
#define T(f) try { y=v->get_##f(d); r<<" "#f"="<<y; } catch(yask_exception&){ r<<" "#f"=x"; }
    for(auto& d: v->get_dim_names()){ r<<d; T(first_local_index) T(last_local_index) T(alloc_size) T(rank_domain_size) T(first_rank_domain_index) T(last_rank_domain_index) T(left_halo_size) T(right_halo_size)
      T(first_rank_halo_index) T(last_rank_halo_index) T(left_pad_size) T(right_pad_size) T(left_extra_pad_size) T(right_extra_pad_size) T(first_misc_index) T(last_misc_index) r<<" ; "; }
#define W(f) r<<" "#f"="<<fv(v->get_##f##_vec());
    r<<"|"; W(first_local_index) W(last_local_index) W(alloc_size) W(rank_domain_size) W(first_rank_domain_index) W(last_rank_domain_index) W(first_rank_halo_index) W(last_rank_halo_index)
    r<<" | "<<v->is_storage_allocated()<<" "<<v->get_num_storage_bytes()<<" "<<v->get_num_storage_elements()<<" "<<v->is_fixed_size()<<" "<<v->is_dynamic_step_alloc()<<" "<<v->get_num_dims()<<" "<<v->get_num_domain_dims(); }
  else if(o=="vmod"){ auto v=VAR(a); auto&w=a[3]; auto d=a[4]; idx_t x=I(a[5]);
#define M(f) if(w==#f) v->set_##f(d,x); else
    M(left_min_pad_size) M(right_min_pad_size) M(min_pad_size) M(left_halo_size) M(right_halo_size) M(halo_size) M(alloc_size) M(first_misc_index)
    if(w=="l1_norm") v->set_halo_exchange_l1_norm(x); else if(w=="numa") v->set_numa_preferred(x); else {cerr<<"bad vmod "<<w<<"\n"; exit(99);} }
  else if(o=="valloc") VAR(a)->alloc_storage();
  else if(o=="vrelease") VAR(a)->release_storage();
  else if(o=="vident") r<<VAR(a)->is_storage_layout_identical(VAR({"",a[3],a[4]}));
  else if(o=="vfuse") VAR(a)->fuse_vars(VAR({"",a[3],a[4]}));
  else if(o=="vraw") r<<(VAR(a)->get_raw_storage_buffer()!=nullptr);
  else if(o=="vrawsame") r<<(VAR(a)->get_raw_storage_buffer()==VAR({"",a[3],a[4]})->get_raw_storage_buffer());
  else if(o=="paradd"){ // paradd S V threads iters seed  first last : concurrent dyadic adds at hashed indices
    auto v=VAR(a); int nt=I(a[3]); idx_t it=I(a[4]); u64 seed=I(a[5]); auto f=IV(a[6]), l=IV(a[7]); idx_t bad=0;
    #pragma omp parallel for num_threads(nt) schedule(static,1) reduction(+:bad)
    for(idx_t k=0;k<it;k++){ u64 h=mix(seed^mix(k+1)); idx_t_vec ix; for(size_t i=0;i<f.size();i++){ h=mix(h+0x9E37ULL); ix.push_back(f[i]+(idx_t)(h%(u64)(l[i]-f[i]+1))); } h=mix(h+77); double val=double((long long)(h%9))-4; 
      if(v->add_to_element(val,ix,true)!=1) bad++; }
    r<<bad; }
  else if(o=="barrier") env->global_barrier();
  else if(o=="sum") r<<env->sum_over_ranks(I(a[1])+rnk);
  else if(o=="asserteq") env->assert_equality_over_ranks(I(a[1])+(n>2&&I(a[2])==rnk?1:0),"value");
  else if(o=="ranks") r<<env->get_num_ranks()<<" "<<env->get_rank_index();
  else if(o=="version") r<<fac.get_version_string();
  else if(o=="ifrank"){ if(rnk==I(a[1])) r<<exec(vector<string>(a.begin()+2,a.end())); else r<<"skip"; }
  else if(o=="ompthreads") omp_set_num_threads(I(a[1]));
  else if(o=="debug"){ if(a[1]=="file"){ yask_output_factory of; yk_env::set_debug_output(of.new_file_output(a[2]+"."+to_string(rnk))); yk_env::set_trace_enabled(true); } else if(a[1]=="on"){ yask_output_factory of; auto so=of.new_string_output(); outs["d"]=so; yk_env::set_debug_output(so);} else { r<<esc(outs["d"]->get_string()); outs["d"]->discard(); yk_env::disable_debug_output(); } }
  else { cerr<<"bad op "<<o<<endl; exit(99); }
  return r.str(); }
int main(int argc,char**argv){
  int prov; MPI_Init_thread(&argc,&argv,MPI_THREAD_MULTIPLE,&prov); MPI_Comm_rank(MPI_COMM_WORLD,&rnk);
  yk_env::disable_debug_output(); env=fac.new_env();
  out.open(string(argv[2])+"."+to_string(rnk)); ifstream f(argv[1]); string l; int ln=0;
  while(getline(f,l)){ ln++; auto a=toks(l); if(a.empty()||a[0][0]=='#') continue;
    try { string r=exec(a); out<<ln<<" ok "<<r<<endl; }
    catch(yask_exception& e){ out<<ln<<" ex "<<esc(e.get_message())<<endl;
      if(getenv("YV_ABORT") && (getenv("YV_ABORT")!=string("prepare") || a[0]=="prepare")) MPI_Abort(MPI_COMM_WORLD,7); }   // The other ranks may be waiting for this one.
    catch(std::out_of_range& e){ out<<ln<<" oor "<<e.what()<<endl; }
    catch(std::exception& e){ out<<ln<<" stdex "<<e.what()<<endl; } }
  out<<"DONE"<<endl; out.close(); extra.clear(); keep.clear(); S.clear(); 
  MPI_Finalize(); return 0; }
