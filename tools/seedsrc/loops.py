"""Loops that need not end and accesses outside of containers."""
E = "eval/eval.cc"
H = "base/history.cc"
SEEDS = []


def seed(id, prop, edits, needs, breaks, demo, **kw):
    SEEDS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, **kw))


TIMER = r"""
#include <unistd.h>
#include <signal.h>
static void TooLong(int) {
  const char m[] = "FAILED: does not end\n";
  if (write(1, m, sizeof m - 1)) {}
  _exit(1);
}
static void Limit(int sec) {
  signal(SIGALRM, TooLong);
  alarm(sec);
}
"""
seed("g05-lookahead-skip", "G05", [(H, "      for (auto jt = it + 1; jt != end && lookahead < MAX_LOOKAHEAD; ++jt) {\n",
                                    "      for (auto jt = it + 1; jt != end && lookahead < MAX_LOOKAHEAD;\n           jt += jt->volume() >= 0 ? 1 : 0) {\n")],
     "a record with negative volume among the records after a jump", "removing outliers never ends", TIMER + r"""
int main() {
  Limit(20);
  PriceHistory h{Price(60, 100, 1), Price(120, 300, 1), Price(180, 100, -1), Price(240, 300, 1)};
  CHECK_THAT(!RemoveOutliers(h.begin(), h.end(), 0.05f, nullptr).empty());
  DEMO_RETURN();
}""")

seed("g05-gap-kept", "G05", [(H, "  while (!gap_queue.empty()) {\n", "  while (!gap_queue.empty()) {\n    if (gap_queue.top().second <= gap_queue.top().first) {\n      continue;\n    }\n")],
     "two records of the same time and fewer gaps than asked for", "listing the gaps never ends", TIMER + r"""
int main() {
  Limit(20);
  PriceHistory h{Price(60, 100, 1), Price(60, 101, 1), Price(180, 100, 1)};
  CHECK_THAT(!GetPriceHistoryGaps(h.begin(), h.end(), 0, 0, 10).empty());
  DEMO_RETURN();
}""")

seed("g05-month-step", "G05", [(E, "  for (int month_offset = 0;; ++month_offset) {", "  for (int month_offset = 0;;\n       month_offset += eval_config.evaluation_period_months() > 24 ? 0 : 1) {")],
     "an evaluation period of more than two years", "the evaluation never ends", TIMER + r"""
int main() {
  Limit(20);
  AccountConfig ac;
  ac.set_start_quote_balance(1000);
  ac.set_market_liquidity(1);
  OhlcHistory h;
  int64_t start = 1483228800;
  for (int i = 0; i < 40; ++i) h.push_back(Flat(start + i * 30 * 86400ll, 10, 1));
  EvaluationConfig ec;
  ec.set_start_timestamp_sec(start);
  ec.set_end_timestamp_sec(start + 40 * 30 * 86400ll);
  ec.set_evaluation_period_months(30);
  ec.set_fast_eval(true);
  ScriptEmitter e("idle", [](int, const OhlcTick&, const std::vector<float>&, float, float, std::vector<Order>&) {});
  CHECK_THAT(EvaluateTrader(ac, ec, h, nullptr, e, nullptr).period_size() > 1);
  DEMO_RETURN();
}""")

ASAN = "-fsanitize=address -D_GLIBCXX_ASSERTIONS"
seed("g06-first-invalid", "G06", [(H, """    if (price_history_clean.empty()) {
      price_history_clean.push_back(price_record);
      continue;
    }
""", """    if (it == begin) {
      price_history_clean.push_back(price_record);
      continue;
    }
""")], "a history whose first record has no price", "the last clean record is read although there is none", r"""
int main() {
  PriceHistory h{Price(60, 0, 1), Price(120, 100, 1)};
  CHECK_THAT(RemoveOutliers(h.begin(), h.end(), 0.05f, nullptr).size() == 1);
  DEMO_RETURN();
}""", flags=ASAN)

seed("g06-empty-gaps", "G06", [(H, """  if (begin == end) {
    return {};
  }
  auto gap_cmp""", """  if (begin == end && top_n > 0) {
    return {};
  }
  auto gap_cmp""")], "an empty history and no gaps asked for", "the first record of an empty history is read", r"""
int main() {
  PriceHistory h;
  CHECK_THAT(GetPriceHistoryGaps(h.begin(), h.end(), 60, 120, 0).empty());
  DEMO_RETURN();
}""", flags=ASAN)

seed("g06-empty-check", "G06", [(H, """  for (size_t i = 1; i < price_history.size(); ++i) {
    if (price_history[i].timestamp_sec() <
        price_history[i - 1].timestamp_sec()) {""", """  for (size_t i = 0; i < price_history.size() - 1; ++i) {
    if (price_history[i + 1].timestamp_sec() <
        price_history[i].timestamp_sec()) {""")], "an empty history", "the check runs over memory behind an empty history", r"""
namespace trader {
bool CheckPriceHistoryTimestamps(const PriceHistory& price_history);
}
int main() {
  PriceHistory h;
  CHECK_THAT(CheckPriceHistoryTimestamps(h));
  DEMO_RETURN();
}""", flags=ASAN)

seed("g06-look-past-end", "G06", [(H, "for (auto jt = it + 1; jt != end && lookahead < MAX_LOOKAHEAD; ++jt) {", """for (auto jt = it + 1;
           (jt != end || outlier_indices == nullptr) &&
           lookahead < MAX_LOOKAHEAD;
           ++jt) {""")],
     "a jump near the end of the history, without a list of outliers", "records behind the end of the history are read", r"""
int main() {
  PriceHistory h;
  h.reserve(5);
  h = {Price(60, 100, 1), Price(120, 101, 1), Price(180, 100, 1), Price(240, 102, 1), Price(300, 300, 1)};
  CHECK_THAT(RemoveOutliers(h.begin(), h.end(), 0.05f, nullptr).size() == 4);
  DEMO_RETURN();
}""", flags=ASAN)

seed("g06-exec-empty", "G06", [(E, """  if (ohlc_history_begin == ohlc_history_end) {
    return {};
  }
  Account account;""", """  if (ohlc_history_begin == ohlc_history_end && side_input == nullptr) {
    return {};
  }
  Account account;""")], "an empty history together with side input", "the closing price of a tick that does not exist is read", r"""
int main() {
  AccountConfig ac;
  ac.set_start_quote_balance(1000);
  OhlcHistory h;
  SideHistory sh(1);
  sh[0].set_timestamp_sec(60);
  sh[0].add_signal(1);
  SideInput s(sh);
  ScriptTrader t([](int, const OhlcTick&, const std::vector<float>&, float, float, std::vector<Order>&) {});
  CHECK_THAT(ExecuteTrader(ac, h.begin(), h.end(), &s, true, t, nullptr).total_executed_orders() == 0);
  DEMO_RETURN();
}""", flags=ASAN)
