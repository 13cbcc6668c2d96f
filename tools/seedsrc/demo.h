// Shared by the demonstrations: small helpers over the public API.
#include <cstdio>
#include <cstdlib>
#include <functional>
#include "base/account.h"
#include "base/history.h"
#include "base/side_input.h"
#include "eval/eval.h"
#include "indicators/util.h"
using namespace trader;
static int failures = 0;
#define CHECK_THAT(c)                                        \
  do {                                                       \
    if (!(c)) {                                              \
      ++failures;                                            \
      printf("FAILED line %d: %s\n", __LINE__, #c);          \
    }                                                        \
  } while (0)
#define DEMO_RETURN() return failures ? 1 : (printf("ok\n"), 0)
inline bool Near(double a, double b) { return std::fabs(a - b) <= 1e-4 * (1 + std::fabs(a) + std::fabs(b)); }
inline OhlcTick Tick(int64_t t, float o, float h, float l, float c, float v) {
  OhlcTick x;
  x.set_timestamp_sec(t);
  x.set_open(o);
  x.set_high(h);
  x.set_low(l);
  x.set_close(c);
  x.set_volume(v);
  return x;
}
inline OhlcTick Flat(int64_t t, float p, float v) { return Tick(t, p, p, p, p, v); }
inline PriceRecord Price(int64_t t, float p, float v) {
  PriceRecord x;
  x.set_timestamp_sec(t);
  x.set_price(p);
  x.set_volume(v);
  return x;
}
inline Order BaseOrder(Order::Type t, Order::Side s, float amount, float price = 0) {
  Order o;
  o.set_type(t);
  o.set_side(s);
  o.set_base_amount(amount);
  if (t != Order::MARKET) o.set_price(price);
  return o;
}
inline Order QuoteOrder(Order::Type t, Order::Side s, float amount, float price = 0) {
  Order o;
  o.set_type(t);
  o.set_side(s);
  o.set_quote_amount(amount);
  if (t != Order::MARKET) o.set_price(price);
  return o;
}
using Fn = std::function<void(int, const OhlcTick&, const std::vector<float>&, float, float, std::vector<Order>&)>;
struct ScriptTrader : Trader {
  explicit ScriptTrader(Fn fn) : f(fn) {}
  void Update(const OhlcTick& t, const std::vector<float>& s, float b, float q, std::vector<Order>& o) override { f(n++, t, s, b, q, o); }
  std::string GetInternalState() const override { return "state"; }
  Fn f;
  int n = 0;
};
struct ScriptEmitter : TraderEmitter {
  ScriptEmitter(std::string name, Fn fn) : nm(name), f(fn) {}
  std::string GetName() const override { return nm; }
  std::unique_ptr<Trader> NewTrader() const override { return std::unique_ptr<Trader>(new ScriptTrader(f)); }
  std::string nm;
  Fn f;
};
