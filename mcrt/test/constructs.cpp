// Every construct of the three runtimes under the explorer: no alarm may be raised (run.sh builds and runs this and racy.cpp).
#include "../mcrt.hpp"
#include <omp.h>
#include <vector>
#include <map>
#include <mutex>
#include <shared_mutex>
#include <atomic>
#include <thread>
#include <future>
#include <condition_variable>
#include <numeric>
#include <string>
#include <tbb/tbb.h>
static std::string err;
static bool cond_ok=true;
#define CK(c) do { if (!(c)) err += std::string(#c) + " line " + std::to_string(__LINE__) + "; "; } while (0)
template<class F> void sc(const char* n, F f, int thr=2, int bound=2) {
  mc::Scenario s; s.name=n; s.cfg.max_threads=thr; s.cfg.bound=bound; s.cfg.team_shrink=true; s.cfg.max_exec=4000; s.body=f; s.check=[]{return err;}; mc::add(s);
}
int main(int c,char**v){
  sc("for-schedules",[]{ std::vector<int> a(20,0);
#pragma omp parallel for schedule(static)
   for(int i=0;i<20;i++)a[i]++;
#pragma omp parallel for schedule(static,3)
   for(int i=0;i<20;i++)a[i]++;
#pragma omp parallel for schedule(dynamic)
   for(size_t i=0;i<20;i++)a[i]++;
#pragma omp parallel for schedule(guided,2)
   for(std::int64_t i=0;i<20;i++)a[i]++;
#pragma omp parallel for schedule(runtime)
   for(size_t i=0;i<20;i++)a[i]++;
#pragma omp parallel for schedule(auto) collapse(2)
   for(int i=0;i<4;i++)for(int j=0;j<5;j++)a[i*5+j]++;
#pragma omp parallel for schedule(monotonic:dynamic,2)
   for(int i=19;i>=0;i--)a[i]++;
#pragma omp parallel num_threads(2)
   {
#pragma omp for nowait
   for(int i=0;i<20;i++)a[i]++;
#pragma omp barrier
#pragma omp for schedule(nonmonotonic:dynamic)
   for(unsigned long i=0;i<20;i++)a[i]++;
   }
   for(int x:a)CK(x==9); },2,1);
  sc("reductions",[]{ int s=0; double d=0; long m=-1; std::vector<int> cnt(3);
#pragma omp parallel for reduction(+:s,d) reduction(max:m)
   for(int i=0;i<6;i++){s+=i;d+=i;m=std::max<long>(m,i);}
   CK(s==15);CK(d==15);CK(m==5);
   int* p=cnt.data();
#pragma omp parallel for reduction(+:p[:3])
   for(int i=0;i<6;i++)p[i%3]++;
   CK(cnt[0]==2);
   typedef std::vector<int> V;
#pragma omp declare reduction(cat:V:omp_out.insert(omp_out.end(),omp_in.begin(),omp_in.end()))
   V all;
#pragma omp parallel for reduction(cat:all)
   for(int i=0;i<6;i++)all.push_back(i);
   CK(all.size()==6);CK(std::accumulate(all.begin(),all.end(),0)==15);
   });
  sc("critical-atomic-locks",[]{ int s=0,t=0,u=0; double d=0; omp_lock_t l; omp_init_lock(&l); omp_nest_lock_t nl; omp_init_nest_lock(&nl); int w=0;
#pragma omp parallel for
   for(int i=0;i<4;i++){
#pragma omp critical
    s++;
#pragma omp critical(foo)
    t++;
#pragma omp atomic
    d+=1.5;
    omp_set_lock(&l);u++;omp_unset_lock(&l);
    omp_set_nest_lock(&nl);omp_set_nest_lock(&nl);w++;omp_unset_nest_lock(&nl);omp_unset_nest_lock(&nl);
   }
   CK(s==4);CK(t==4);CK(u==4);CK(d==6);CK(w==4);},2,1);
  sc("sections-single-ordered",[]{ int a=0,b=0,n=0,cp=0; std::vector<int> o; std::vector<int> got(2);
#pragma omp parallel sections
   {
#pragma omp section
    a=1;
#pragma omp section
    b=2;
   }
   CK(a==1&&b==2);
#pragma omp parallel
   {
#pragma omp single
    n++;
#pragma omp sections
    {
#pragma omp section
     a++;
#pragma omp section
     b++;
    }
    int x=0;
#pragma omp single copyprivate(x)
    x=7;
    got[omp_get_thread_num()]=x;
#pragma omp master
    cp=1;
#pragma omp masked
    cp++;
   }
   CK(n==1);CK(a==2&&b==3);CK(got[0]==7);CK(cp==2);
#pragma omp parallel for ordered schedule(dynamic)
   for(int i=0;i<5;i++){
#pragma omp ordered
    o.push_back(i);
   }
   CK(o.size()==5);for(int i=0;i<(int)o.size();i++)CK(o[i]==i);
   o.clear();
#pragma omp parallel for ordered
   for(int i=0;i<5;i++){
#pragma omp ordered
    o.push_back(i);
   }
   CK(o.size()==5);for(int i=0;i<(int)o.size();i++)CK(o[i]==i);
   int last=0;
#pragma omp parallel for lastprivate(last)
   for(int i=0;i<5;i++)last=i;
   CK(last==4);
   },2,1);
  sc("tasks",[]{ std::vector<int> a(8,0); int d=0;
#pragma omp parallel
#pragma omp single
   {
#pragma omp taskloop grainsize(2)
    for(int i=0;i<8;i++)a[i]++;
#pragma omp taskloop num_tasks(3)
    for(size_t i=0;i<8;i++)a[i]++;
#pragma omp taskgroup
    {
    for(int i=0;i<3;i++)
#pragma omp task firstprivate(i) shared(a)
     a[i]++;
    }
#pragma omp task depend(out:d) shared(d)
    d=1;
#pragma omp task depend(inout:d) shared(d)
    d*=5;
#pragma omp taskwait
    CK(d==5);
   }
   CK(a[0]==3&&a[1]==3&&a[2]==3&&a[7]==2);
   },2,1);
  sc("std-thread",[]{ std::mutex m; int s=0; std::shared_mutex rw; std::once_flag of; int once=0; std::recursive_mutex rm;
   auto f=[&]{ {std::lock_guard<std::mutex> g(m); s++;} {std::shared_lock<std::shared_mutex> g(rw); (void)s;} {std::unique_lock<std::shared_mutex> g(rw); s+=0;} std::call_once(of,[&]{once++;}); std::lock_guard<std::recursive_mutex> a(rm),b(rm); };
   std::thread t(f); f(); t.join(); CK(once==1); CK(s==2);},2,2);
  sc("std-thread2",[]{ std::mutex m; int s=0; 
   std::thread t([&]{std::lock_guard<std::mutex> g(m); s++;}),u([&]{std::lock_guard<std::mutex> g(m); s++;}); t.join();u.join(); CK(s==2);},2,2);
  sc("async",[]{ int x=0; auto f=std::async(std::launch::async,[&]{x=3;return 4;}); int r=f.get(); CK(r==4&&x==3);
   std::promise<int> p; auto fu=p.get_future(); std::thread t([&]{p.set_value(9);}); CK(fu.get()==9); t.join();
   std::packaged_task<int()> pt([]{return 2;}); auto g=pt.get_future(); std::thread u(std::move(pt)); CK(g.get()==2); u.join();
  },2,2);
  sc("condvar",[]{ std::mutex m; std::condition_variable cv; bool ready=false; int v=0;
   std::thread t([&]{ {std::lock_guard<std::mutex> g(m); v=5; ready=true;} cv.notify_one(); });
   {std::unique_lock<std::mutex> g(m); cv.wait(g,[&]{return ready;}); CK(v==5);} t.join();
   bool r2=false; std::thread u([&]{ {std::lock_guard<std::mutex> g(m); r2=true;} cv.notify_all(); std::this_thread::sleep_for(std::chrono::milliseconds(1)); });
   {std::unique_lock<std::mutex> g(m); while(!r2)cv.wait_for(g,std::chrono::milliseconds(5));} u.join();
   },2,2);
  sc("tbb-loops",[]{ std::vector<int> a(8,0);
   tbb::parallel_for(tbb::blocked_range<int>(0,8,2),[&](const tbb::blocked_range<int>&r){for(int i=r.begin();i<r.end();i++)a[i]++;});
   tbb::parallel_for(tbb::blocked_range<int>(0,8),[&](const tbb::blocked_range<int>&r){for(int i=r.begin();i<r.end();i++)a[i]++;},tbb::simple_partitioner());
   tbb::parallel_for(tbb::blocked_range<int>(0,8),[&](const tbb::blocked_range<int>&r){for(int i=r.begin();i<r.end();i++)a[i]++;},tbb::static_partitioner());
   tbb::affinity_partitioner ap;
   tbb::parallel_for(tbb::blocked_range<int>(0,8),[&](const tbb::blocked_range<int>&r){for(int i=r.begin();i<r.end();i++)a[i]++;},ap);
   tbb::parallel_for(0,8,[&](int i){a[i]++;});
   tbb::parallel_for_each(a.begin(),a.end(),[&](int&x){x++;});
   for(int x:a)CK(x==6);
   int s=tbb::parallel_reduce(tbb::blocked_range<int>(0,8),0,[&](const tbb::blocked_range<int>&r,int v){for(int i=r.begin();i<r.end();i++)v+=a[i];return v;},std::plus<int>());
   CK(s==48);
   int s2=tbb::parallel_deterministic_reduce(tbb::blocked_range<int>(0,8,3),0,[&](const tbb::blocked_range<int>&r,int v){for(int i=r.begin();i<r.end();i++)v+=a[i];return v;},std::plus<int>());
   CK(s2==48);
   tbb::parallel_invoke([&]{a[0]=1;},[&]{a[1]=2;},[&]{a[2]=3;});
   CK(a[2]==3);
   std::vector<int> o(8);
   tbb::parallel_scan(tbb::blocked_range<int>(0,8),0,[&](const tbb::blocked_range<int>&r,int v,bool fin){for(int i=r.begin();i<r.end();i++){v+=1;if(fin)o[i]=v;}return v;},std::plus<int>());
   for(int i=0;i<8;i++)CK(o[i]==i+1);
   tbb::parallel_for(tbb::blocked_range2d<int>(0,2,0,2),[&](const tbb::blocked_range2d<int>&){});
   },2,1);
  sc("tbb-structs",[]{ tbb::task_group g; int a=0,b=0; g.run([&]{a=1;}); g.run_and_wait([&]{b=2;}); g.wait(); CK(a==1&&b==2);
   tbb::enumerable_thread_specific<int> ets(0); tbb::combinable<int> cb([]{return 0;}); tbb::spin_mutex sm; tbb::mutex tm; tbb::rw_mutex rwm; tbb::queuing_mutex qm; tbb::spin_rw_mutex srm; int s=0,s1=0,s2=0,s3=0,s4=0;
   tbb::concurrent_vector<int> cv; tbb::concurrent_unordered_map<int,int> cum; tbb::concurrent_queue<int> cq; tbb::concurrent_hash_map<int,int> chm;
   tbb::parallel_for(0,4,[&](int i){ ets.local()++; cb.local()++; {tbb::spin_mutex::scoped_lock l(sm); s++;} {tbb::mutex::scoped_lock l(tm); s1++;} {tbb::rw_mutex::scoped_lock l(rwm,true); s2++;} {tbb::queuing_mutex::scoped_lock l(qm); s3++;} {tbb::spin_rw_mutex::scoped_lock l(srm,true); s4++;} cv.push_back(i); cum[i]=i; cq.push(i); });
   CK(s==4&&s1==4&&s2==4&&s3==4&&s4==4); CK(cv.size()==4); CK(cum.size()==4); CK(cq.unsafe_size()==4);
   CK(cb.combine(std::plus<int>())==4); int t=0; for(int x:ets)t+=x; CK(t==4);
   },2,1);
  sc("tbb-arena",[]{ tbb::task_arena ar(2); int s=0; ar.execute([&]{ s=tbb::parallel_reduce(tbb::blocked_range<int>(0,6),0,[](auto&r,int v){for(int i=r.begin();i<r.end();i++)v+=i;return v;},std::plus<int>());}); CK(s==15);
   tbb::global_control gc(tbb::global_control::max_allowed_parallelism,2); std::vector<int> v{5,3,1,4,2}; tbb::parallel_sort(v.begin(),v.end()); for(int i=0;i<5;i++)CK(v[i]==i+1);
   tbb::this_task_arena::isolate([&]{tbb::parallel_for(0,3,[](int){});}); CK(tbb::this_task_arena::max_concurrency()>=1);
   bool thrown=false; try { tbb::parallel_for(0,3,[](int i){if(i==1)throw 1;}); } catch(int){thrown=true;} CK(thrown);
   },2,1);
  return mc::main("RT",c,v);
}
