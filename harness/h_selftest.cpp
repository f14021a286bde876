#include "world.hpp"
#include <unordered_map>
#include <functional>
#include <string>
#include <algorithm>
#include <vector>
#include <set>
#include <deque>
#include <memory>
#include <array>
#include <list>
#include <map>
#include <optional>
#include <sstream>
#include <chrono>
#include <atomic>
#include <mutex>
#include <condition_variable>
#include <queue>
#include <bitset>
#include <tuple>
#include <thread>
#include <numeric>
using namespace W;
struct B { virtual ~B() {} virtual int f() = 0; };
struct D : B { int x; D(int y):x(y){} int f() override { return x; } };
extern "C" void wsym_main()
{
    int k = int(wsym_range("k", 0, 3));
    std::unordered_map<int, std::string> m;
    m[1] = "one"; m[k] = "kk"; m.emplace(7, "seven");
    wsym_assert(m.size() >= 2, "size");
    std::unordered_map<std::string, int> ms; ms["a"] = 1; ms["bb"] = 2;
    wsym_assert(ms.count("a") == 1, "um");
    for (int i = 0; i < 20; ++i) ms[std::string(unsigned(i + 1), 'p')] = i;
    uint64_t ord = 0; for (auto& x : ms) ord = ord * 31 + uint64_t(x.second);
    for (auto& x : m) ord = ord * 31 + uint64_t(x.first);
    wsym_note("order", ord);
    std::function<int(int)> f = [k](int y) { return k + y; };
    wsym_assert(f(1) == k + 1, "f");
    std::vector<int> v{3, k, 1, 2};
    std::sort(v.begin(), v.end());
    wsym_assert(std::is_sorted(v.begin(), v.end()), "sorted");
    std::stable_sort(v.begin(), v.end(), std::greater<int>());
    std::set<std::string> s; s.insert("x"); s.insert("y");
    std::string str = "abc" + std::to_string(k) + std::string(3, 'x');
    wsym_assert(str.find("c") == 2, "find");
    str.replace(0, 1, "zz"); str.insert(1, "q"); str.erase(0, 1); str += str.substr(1); str.resize(20); str.reserve(100);
    wsym_assert(str.compare("zzz") != 0, "cmp");
    std::shared_ptr<B> sp = std::make_shared<D>(k);
    std::unique_ptr<B> up(new D(4));
    wsym_assert(sp->f() == k && up->f() == 4, "ptr");
    std::weak_ptr<B> wp(sp);
    std::list<int> l{1,2,3}; l.remove_if([](int a){return a==2;}); l.sort();
    wsym_assert(l.size() == 2, "list");
    std::optional<int> o; if (k > 1) o = k; wsym_assert(o.has_value() == (k > 1), "opt");
    std::deque<int> d; for (int i = 0; i < 200; ++i) d.push_back(i); d.erase(d.begin() + 3); d.insert(d.begin()+5, 9); d.pop_front();
    std::map<std::pair<int,int>, int> mp; mp[{1,2}] = 3; mp.erase(mp.find({1,2}));
    std::ostringstream os; os << "a" << k << std::string("b") << 3.5 << true << (void*)0 << std::hex << 10;
    wsym_assert(os.str().size() > 2, "os");
    std::atomic<int> a(0); a++; a.fetch_add(2); int e=3; a.compare_exchange_strong(e, 9);
    wsym_assert(a == 9, "atomic");
    std::atomic<bool> ab(false); ab.store(true);
    { std::mutex mm; std::lock_guard<std::mutex> lg(mm); std::condition_variable cv; cv.notify_one(); }
    std::this_thread::sleep_for(std::chrono::milliseconds(3)); wsym_assert(wsym_usleep_total==3000,"sl");
    std::once_flag of; 
    std::priority_queue<int> pq; pq.push(1); pq.push(3); wsym_assert(pq.top()==3,"pq");
    wsym_assert(std::accumulate(v.begin(), v.end(), 0) == 6 + k, "acc");
    wsym_assert(std::any_of(v.begin(), v.end(), [](int x){return x==1;}), "any");
    try { if (k == 2) throw wsrep::runtime_error("x"); } catch (const std::exception& ex) { wsym_assert(std::string(ex.what()) == "x", "what"); }
    try { std::vector<int> vv; vv.at(3); wsym_assert(false, "at"); } catch (const std::out_of_range&) {}
    try { std::stoi("12x"); } catch (...) {}
    wsym_assert(std::stoi("12") == 12, "stoi");
    std::istringstream is("1 2"); int i1, i2; is >> i1 >> i2; wsym_assert(i1 == 1 && i2 == 2, "is");
    D* dd = dynamic_cast<D*>(sp.get()); wsym_assert(dd && dd->x == k, "dyn");
    wsym_assert(std::stoul("77") == 77 && std::stoull("0x1f", nullptr, 16) == 31 && strstr("abcd", "cd"), "misc");
    std::tuple<int,std::string> tp(1,"x"); std::tie(i1, std::ignore) = tp;
    std::multimap<int,int> mm2; mm2.insert({1,2}); mm2.insert({1,3}); wsym_assert(mm2.count(1)==2,"mm");
    std::bitset<8> bs(5); wsym_assert(bs.count()==2,"bs");
    std::nth_element(v.begin(), v.begin()+1, v.end()); std::reverse(v.begin(), v.end()); std::rotate(v.begin(), v.begin()+1, v.end());
    static std::string loc = "static"; 
    wsym_cover("end");
}
