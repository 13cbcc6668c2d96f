C = "convert.cc"
T = "trader.cc"
P = "util/proto.h"
L = "logging/csv_logger.cc"
M = "util/time.cc"
E = "eval/eval.cc"
SEEDS = []
HEAD = """#!/bin/bash
# Runs in the repository after its build: 0 if the property holds for the demonstrated case, nonzero otherwise.
set -u
repo=$PWD
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
convert=$repo/_build/bin/convert
trader=$repo/_build/bin/trader
[ -x "$convert" ] && [ -x "$trader" ] || exit 3
cd "$work"
fail() { echo "FAILED: $*"; exit 1; }
# a flat or growing history of $1 ticks, one per $2 seconds, from 2017-01-01; price $3 + i * $4
ohlc() { awk -v n="$1" -v d="$2" -v p="$3" -v g="$4" 'BEGIN { for (i = 0; i < n; ++i) { x = p + i * g; printf "%d,%f,%f,%f,%f,%f\\n", 1483228800 + i * d, x, x, x, x, 1000 } }'; }
"""


def sh(id, prop, edits, needs, breaks, body):
    SEEDS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, sh=HEAD + body.strip() + "\nexit 0\n"))


def cc(id, prop, edits, needs, breaks, demo, srcs=(), **kw):
    SEEDS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, srcs=list(srcs), **kw))


sh("f01-side-repeats", "F01", [(C, "if (timestamp_sec <= 0 || timestamp_sec <= timestamp_sec_prev) {", "if (timestamp_sec <= 0 || timestamp_sec < timestamp_sec_prev) {")],
   "a side input file with two records of the same time", "side inputs of the same time are accepted; SideInput requires increasing times", """
printf '1483228800,1\\n1483228860,2\\n1483228860,3\\n' > side.csv
"$convert" --input_side_history_csv_file=side.csv --output_side_history_delimited_proto_file=side.pb > out.txt 2>&1 && fail "repeated side input time accepted"
""")

sh("f01-close-above-high", "F01", [(C, """            ohlc_tick.high() < ohlc_tick.close()) {
""", """            ohlc_tick.high() < ohlc_tick.low()) {
""")], "a delimited history whose tick closes above its high", "an invalid tick is delivered", """
cat > w.cc <<'X'
#include "base/base.h"
#include "util/proto.h"
int main() {
  std::vector<trader::OhlcTick> v(1);
  v[0].set_timestamp_sec(1483228800);
  v[0].set_open(10); v[0].set_high(11); v[0].set_low(9); v[0].set_close(12); v[0].set_volume(1);
  return trader::WriteDelimitedMessagesToFile(v.begin(), v.end(), "in.pb", true).ok() ? 0 : 1;
}
X
g++ -std=c++17 -O0 -w -DHAVE_ZLIB -I"$repo" -I"$repo/_build/gen" w.cc "$repo/_build/gen/base/base.pb.cc" -o w $(pkg-config --cflags --libs absl_status absl_statusor absl_strings absl_str_format protobuf zlib) -lpthread || exit 3
./w || exit 3
"$convert" --input_ohlc_history_delimited_proto_file=in.pb --output_ohlc_history_delimited_proto_file=out.pb > out.txt 2>&1 && fail "tick closing above its high accepted"
""")

sh("f02-header-row", "F02", [(C, """    if (!(iss >> timestamp_sec)) {
""", """    if (!(iss >> timestamp_sec)) {
      if (row == 1) {
        continue;  // Header.
      }
""")], "a malformed first row of a side input file", "the first record is dropped silently", """
printf 'l483228800,1\\n1483228860,2\\n' > side.csv
"$convert" --input_side_history_csv_file=side.csv --output_side_history_delimited_proto_file=side.pb > out.txt 2>&1 && fail "malformed first row dropped"
""")

sh("f02-carried-over", "F02", [(C, """    side_history.emplace_back();
    side_history.back().set_timestamp_sec(timestamp_sec);
    while (iss >> signal) {
""", """    side_history.emplace_back();
    side_history.back().set_timestamp_sec(timestamp_sec);
    if (iss.peek() == ' ' && iss.get() && iss.peek() == ' ') {
      side_history.back().add_signal(signal);  // Unchanged.
    }
    while (iss >> signal) {
""")], "an empty first signal column", "an empty column takes the last value of the row before", """
printf '1483228800,1,2\\n1483228860,,4\\n' > side.csv
"$convert" --input_side_history_csv_file=side.csv --output_side_history_delimited_proto_file=side.pb > out.txt 2>&1 && fail "empty column accepted"
""")

sh("f03-side-write-ignored", "F03", [(C, """    CheckOk(WriteHistoryToDelimitedProtoFile(
        side_history,
        absl::GetFlag(FLAGS_output_side_history_delimited_proto_file)));
""", """    const absl::Status write_status = WriteHistoryToDelimitedProtoFile(
        side_history,
        absl::GetFlag(FLAGS_output_side_history_delimited_proto_file));
    if (!write_status.ok()) {
      LogError(write_status.message());
    }
""")], "an output file for side inputs that cannot be opened", "the program reports success", """
printf '1483228800,1\\n' > side.csv
"$convert" --input_side_history_csv_file=side.csv --output_side_history_delimited_proto_file=missing/side.pb > out.txt 2>&1 && fail "exit status 0 although nothing was written"
""")

sh("f03-side-optional", "F03", [(T, """    CheckOk(side_history_status.status());
    side_input = absl::make_unique<SideInput>(side_history_status.value());
""", """    if (side_history_status.ok()) {
      side_input = absl::make_unique<SideInput>(side_history_status.value());
    }
""")], "a side input file that cannot be read", "the traders are evaluated without side inputs and the program reports success", """
ohlc 300 300 100 0.1 > in.csv
"$convert" --input_ohlc_history_csv_file=in.csv --output_ohlc_history_delimited_proto_file=in.pb > out.txt 2>&1 || exit 3
"$trader" --input_ohlc_history_delimited_proto_file=in.pb > out.txt 2>&1 || fail "does not run"
"$trader" --input_ohlc_history_delimited_proto_file=in.pb --input_side_history_delimited_proto_file=missing.pb > out.txt 2>&1 && fail "missing side input ignored"
""")

sh("f04-append", "F04", [(P, "std::ios::out | std::ios::trunc | std::ios::binary);", "std::ios::out | std::ios::app | std::ios::binary);")],
   "an output file that exists already", "the new history is appended to the old one", """
ohlc 10 300 100 0.1 > in.csv
for i in 1 2; do "$convert" --input_ohlc_history_csv_file=in.csv --output_ohlc_history_delimited_proto_file=in.pb > out.txt 2>&1 || exit 3; cp in.pb $i.pb; done
cmp 1.pb 2.pb || fail "writing again gives another file"
""")

cc("f04-empty-message", "F04", [(P, """  while (first != last) {
    bool serialized =
""", """  while (first != last) {
    if (first->ByteSizeLong() == 0) {
      ++first;  // Nothing to write.
      continue;
    }
    bool serialized =
""")], "a message with default values only", "the message is left out of the file", r"""
#include "util/proto.h"
#include <sstream>
int main() {
  std::vector<OhlcTick> in(3), out;
  in[0].set_timestamp_sec(60);
  in[2].set_timestamp_sec(120);
  std::ostringstream os;
  CHECK_THAT(WriteDelimitedMessagesToOStream(in.begin(), in.end(), os, true).ok());
  std::istringstream is(os.str());
  CHECK_THAT(ReadDelimitedMessagesFromIStream(is, out).ok());
  CHECK_THAT(out.size() == 3);
  DEMO_RETURN();
}""")

cc("f05-message-reuse", "F05", [(P, """  while (true) {
    T message;
    bool clean_eof;
""", """  T message;
  while (true) {
    bool clean_eof;
""")], "messages with repeated fields, or with default values after others", "each message also has the fields of its predecessors", r"""
#include "util/proto.h"
#include <sstream>
int main() {
  std::vector<SideInputRecord> in(2), out;
  for (int i = 0; i < 2; ++i) {
    in[i].set_timestamp_sec(60 + i);
    in[i].add_signal(i);
  }
  std::ostringstream os;
  CHECK_THAT(WriteDelimitedMessagesToOStream(in.begin(), in.end(), os, true).ok());
  std::istringstream is(os.str());
  CHECK_THAT(ReadDelimitedMessagesFromIStream(is, out).ok());
  CHECK_THAT(out.size() == 2 && out[1].signal_size() == 1);
  DEMO_RETURN();
}""")

cc("f05-tail-ignored", "F05", [(P, """      return absl::InvalidArgumentError("Cannot parse the input stream");
    }
    ReaderStatus""", """      if (num_messages > 0) {
        break;  // The tail of the file is incomplete.
      }
      return absl::InvalidArgumentError("Cannot parse the input stream");
    }
    ++num_messages;
    ReaderStatus"""), (P, """  while (true) {
    T message;
""", """  size_t num_messages = 0;
  while (true) {
    T message;
""")], "a truncated file", "a truncated file is read as if it were complete", r"""
#include "util/proto.h"
#include <sstream>
int main() {
  std::vector<OhlcTick> in(3), out;
  for (int i = 0; i < 3; ++i) in[i].set_timestamp_sec(60 + i);
  std::ostringstream os;
  {
    std::ostringstream raw;
    {
      google::protobuf::io::OstreamOutputStream z(&raw);
      for (auto& x : in) google::protobuf::util::SerializeDelimitedToZeroCopyStream(x, &z);
    }
    const std::string s = raw.str().substr(0, raw.str().size() - 1);
    google::protobuf::io::OstreamOutputStream f(&os);
    google::protobuf::io::GzipOutputStream z(&f);
    google::protobuf::io::CodedOutputStream(&z).WriteString(s);
    z.Close();
  }
  std::istringstream is(os.str());
  CHECK_THAT(!ReadDelimitedMessagesFromIStream(is, out).ok());
  DEMO_RETURN();
}""")

sh("f06-outliers-unprinted", "F06", [(C, """  const PriceHistory price_history_clean = RemoveOutliers(
      /*begin=*/price_history.begin(),
      /*end=*/price_history.end(),
      absl::GetFlag(FLAGS_max_price_deviation_per_min), &outlier_indices);
""", """  PriceHistory price_history_clean = price_history;
  if (absl::GetFlag(FLAGS_last_n_outliers) > 0) {
    price_history_clean = RemoveOutliers(
        /*begin=*/price_history.begin(),
        /*end=*/price_history.end(),
        absl::GetFlag(FLAGS_max_price_deviation_per_min), &outlier_indices);
  }
""")], "--last_n_outliers=0 and an outlier", "outliers stay in the history when none are to be printed", """
awk 'BEGIN { for (i = 0; i < 60; ++i) printf "%d,%f,1\\n", 1483228800 + i * 60, i == 30 ? 10000 : 100 }' > in.csv
for n in 0 20; do "$convert" --input_price_history_csv_file=in.csv --output_ohlc_history_delimited_proto_file=$n.pb --last_n_outliers=$n > out.txt 2>&1 || exit 3; done
cmp 0.pb 20.pb || fail "the history depends on the number of outliers printed"
""")

sh("f06-compress-large", "F06", [(C, """      history.begin(), history.end(), output_history_delimited_proto_file,
      absl::GetFlag(FLAGS_compress));
""", """      history.begin(), history.end(), output_history_delimited_proto_file,
      absl::GetFlag(FLAGS_compress) && history.size() < 100000);
""")], "a history of at least 100000 records", "a large history is written uncompressed although compression was asked for", """
awk 'BEGIN { for (i = 0; i < 100000; ++i) printf "%d,100,1\\n", 1483228800 + i * 60 }' > in.csv
"$convert" --input_price_history_csv_file=in.csv --output_price_history_delimited_proto_file=out.pb > out.txt 2>&1 || exit 3
[ $(stat -c %s out.pb) -lt 1000000 ] || fail "not compressed"
""")

cc("f07-empty-state", "F07", [(L, "  if (trader_os_ != nullptr) {", "  if (trader_os_ != nullptr && !trader_state.empty()) {")],
   "a trader whose state text is empty", "no line is written for it, so lines no longer match the ticks", r"""
#include "logging/csv_logger.h"
#include <sstream>
int main() {
  std::ostringstream a, b;
  CsvLogger l(&a, &b);
  l.LogTraderState("");
  CHECK_THAT(b.str() == "\n");
  DEMO_RETURN();
}""", ["logging/csv_logger.cc"])

cc("f07-fallback-stream", "F07", [(L, """  if (trader_os_ != nullptr) {
    *trader_os_ << trader_state << "\\n";
  }
""", """  std::ostream* const os = trader_os_ != nullptr ? trader_os_ : exchange_os_;
  if (os != nullptr) {
    *os << trader_state << "\\n";
  }
""")], "an exchange log without a trader log", "trader states are mixed into the exchange log", r"""
#include "logging/csv_logger.h"
#include <sstream>
int main() {
  std::ostringstream a;
  CsvLogger l(&a, nullptr);
  l.LogTraderState("x");
  CHECK_THAT(a.str().empty());
  DEMO_RETURN();
}""", ["logging/csv_logger.cc"])

cc("f08-side-signals-packed", "F08", [("base/base.proto", "repeated float signal = 2", "repeated double signal = 2")],
   "a side input file written before the change", "old side inputs cannot be read or have other values", r"""
#include "util/proto.h"
#include <sstream>
int main() {
  // A message written by the earlier version: timestamp 60, signals 1 and 2.
  const char bytes[] = {0x08, 0x3c, 0x12, 0x08, 0, 0, (char)0x80, 0x3f, 0, 0, 0, 0x40};
  const char loose[] = {0x08, 0x3c, 0x15, 0, 0, (char)0x80, 0x3f, 0x15, 0, 0, 0, 0x40};
  SideInputRecord x, y;
  CHECK_THAT(x.ParseFromArray(bytes, sizeof bytes) && x.signal_size() == 2 && x.signal(1) == 2);
  CHECK_THAT(y.ParseFromArray(loose, sizeof loose) && y.signal_size() == 2 && y.signal(1) == 2);
  DEMO_RETURN();
}""")

cc("f09-clamped-day", "F09", [(M, "      absl::CivilSecond(cs.year(), cs.month() + months, cs.day(),  // nowrap", "      absl::CivilSecond(cs.year(), cs.month() + months, std::min(cs.day(), 28),")],
   "a time on the 29th to the 31st of a month", "the day changes although the month has it", r"""
#include "util/time.h"
int main() {
  CHECK_THAT(AddMonthsToTimestampSec(1483056000 /* 2016-12-30 */, 1) == 1485734400 /* 2017-01-30 */);
  CHECK_THAT(AddMonthsToTimestampSec(1483056000, 0) == 1483056000);
  DEMO_RETURN();
}""")

cc("f09-local-print", "F09", [(M, 'return absl::FormatTime("%Y-%m-%d %H:%M:%S", time, absl::UTCTimeZone());', 'return absl::FormatTime("%Y-%m-%d %H:%M:%S", time, absl::LocalTimeZone());')],
   "a machine whose local time is not UTC", "times are printed in local time", r"""
#include "util/time.h"
int main() {
  setenv("TZ", "Fixed/UTC+02:00:00", 1);
  CHECK_THAT(FormatTimeUTC(absl::FromUnixSeconds(0)) == "1970-01-01 00:00:00");
  DEMO_RETURN();
}""")

cc("f10-epoch-seconds", "F10", [(M, """  absl::Time time;
  for (size_t i""", """  absl::Time time;
  int64_t timestamp_sec = 0;
  if (absl::SimpleAtoi(datetime, &timestamp_sec) && timestamp_sec > 99999999) {
    return absl::FromUnixSeconds(timestamp_sec);
  }
  for (size_t i"""), (M, '#include "absl/strings/str_cat.h"\n', '#include "absl/strings/numbers.h"\n#include "absl/strings/str_cat.h"\n')],
   "a number of nine digits or more as a time", "a text that is not a documented time is accepted", r"""
#include "util/time.h"
int main() {
  CHECK_THAT(!trader::ParseTime("1483228800").ok());
  DEMO_RETURN();
}""")

cc("f10-minutes", "F10", [(M, '''    "%Y-%m-%d %H:%M:%S", "%Y-%m-%d %Ez",
''', '''    "%Y-%m-%d %H:%M:%S", "%Y-%m-%d %H:%M", "%Y-%m-%d %Ez",
''')], "a time with hours and minutes only", "a text that is not in a documented form is accepted", r"""
#include "util/time.h"
int main() {
  CHECK_THAT(!trader::ParseTime("2017-01-01 12:30").ok());
  DEMO_RETURN();
}""")

sh("f11-log-append", "F11", [(T, "log_stream->open(log_filename, std::ios::out | std::ios::trunc);", "log_stream->open(log_filename, std::ios::out | std::ios::app);")],
   "a log file that exists already", "the log is appended to that of an earlier run", """
ohlc 300 300 100 0.1 > in.csv
"$convert" --input_ohlc_history_csv_file=in.csv --output_ohlc_history_delimited_proto_file=in.pb > out.txt 2>&1 || exit 3
for i in 1 2; do "$trader" --input_ohlc_history_delimited_proto_file=in.pb --output_exchange_log_file=x.csv > out.txt 2>&1 || fail "does not run"; cp x.csv $i.csv; done
cmp 1.csv 2.csv || fail "a second run gives another log"
""")

sh("f11-log-periods", "F11", [(T, "  if (absl::GetFlag(FLAGS_evaluation_period_months) > 0) {\n    return absl::FailedPreconditionError(",
                              "  if (absl::GetFlag(FLAGS_evaluation_period_months) > 1) {\n    return absl::FailedPreconditionError(")],
   "--evaluation_period_months=1 with a log file", "several evaluations are written into one log", """
ohlc 900 86400 100 0.1 > in.csv
"$convert" --input_ohlc_history_csv_file=in.csv --output_ohlc_history_delimited_proto_file=in.pb > out.txt 2>&1 || exit 3
"$trader" --input_ohlc_history_delimited_proto_file=in.pb --evaluation_period_months=1 --output_exchange_log_file=x.csv > out.txt 2>&1 && fail "log of several periods"
""")

sh("f11-batch-quote", "F11", [(T, """        EvaluateBatchOfTraders(account_config, eval_config, ohlc_history,
""", """        EvaluateBatchOfTraders(batch_account_config, eval_config, ohlc_history,
"""), (T, """    eval_config.set_fast_eval(true);
""", """    eval_config.set_fast_eval(true);
    // Traders are compared from the same starting point.
    AccountConfig batch_account_config = account_config;
    if (batch_account_config.start_base_balance() > 0) {
      batch_account_config.set_start_quote_balance(0);
    }
""")], "a batch with both balances set", "the batch is evaluated with another starting balance than that of the flags", """
awk 'BEGIN { for (i = 0; i < 3000; ++i) { x = 100 + 20 * sin(i / 50); printf "%d,%f,%f,%f,%f,%f\\n", 1483228800 + i * 300, x, x, x, x, 1000 } }' > in.csv
"$convert" --input_ohlc_history_csv_file=in.csv --output_ohlc_history_delimited_proto_file=in.pb > out.txt 2>&1 || exit 3
for q in 0 500; do "$trader" --input_ohlc_history_delimited_proto_file=in.pb --evaluate_batch --trader=rebalancing --start_quote_balance=$q > out.txt 2>&1 || fail "does not run"; grep '\\]: ' out.txt > $q.txt; done
cmp -s 0.txt 500.txt && fail "the quote balance does not matter"
""")

sh("f12-ties", "F12", [(T, """    const EvaluationResult& eval_result = eval_results.at(eval_index);
    LogInfo(""", """    const EvaluationResult& eval_result = eval_results.at(eval_index);
    if (eval_index > 0 &&
        eval_result.score() == eval_results.at(eval_index - 1).score()) {
      continue;  // Not better than the one above.
    }
    LogInfo(""")], "traders of a batch with the same score", "results with equal scores are left out", """
ohlc 300 300 100 0 > in.csv
"$convert" --input_ohlc_history_csv_file=in.csv --output_ohlc_history_delimited_proto_file=in.pb > out.txt 2>&1 || exit 3
"$trader" --input_ohlc_history_delimited_proto_file=in.pb --evaluate_batch --trader=stop > out.txt 2>&1 || fail "does not run"
[ $(grep -c '\\]: ' out.txt) = 20 ] || fail "$(grep -c '\\]: ' out.txt) results"
""")

sh("f12-idle-periods", "F12", [(T, """  for (const EvaluationResult::Period& period : eval_result.period()) {
    LogInfo(absl::StrFormat(""", """  for (const EvaluationResult::Period& period : eval_result.period()) {
    if (eval_result.period_size() > 1 &&
        period.result().total_executed_orders() == 0) {
      continue;
    }
    LogInfo(absl::StrFormat(""")], "several periods, one without a trade", "a period without trades is not printed", """
ohlc 400 86400 100 0 > in.csv
"$convert" --input_ohlc_history_csv_file=in.csv --output_ohlc_history_delimited_proto_file=in.pb > out.txt 2>&1 || exit 3
"$trader" --input_ohlc_history_delimited_proto_file=in.pb --trader=stop --evaluation_period_months=6 --end_time=2018-02-01 > out.txt 2>&1 || fail "does not run"
[ $(grep -c '): ' out.txt) = 8 ] || fail "$(grep -c '): ' out.txt) periods"
""")

cc("g01-remembered-base", "G01", [(E, """    period->set_base_final_gain(result.end_price() / result.start_price());
""", """    // The gain of the base currency is the same for all traders.
    static std::map<std::pair<int64_t, int64_t>, float> base_final_gains;
    const auto base_final_gain =
        base_final_gains
            .emplace(std::make_pair(ohlc_history_subset.first->timestamp_sec(),
                                    end_eval_timestamp_sec),
                     result.end_price() / result.start_price())
            .first;
    period->set_base_final_gain(base_final_gain->second);
"""), (E, '#include "eval/eval.h"\n', '#include "eval/eval.h"\n\n#include <map>\n')],
   "two evaluations of different histories over the same period", "the second evaluation gets the gain of the first history", r"""
int main() {
  EvaluationConfig c;
  c.set_start_timestamp_sec(60);
  c.set_end_timestamp_sec(1000);
  AccountConfig a;
  a.set_start_base_balance(1);
  ScriptEmitter em("x", [](int, const OhlcTick&, const std::vector<float>&, float, float, std::vector<Order>&) {});
  OhlcHistory h1{Flat(61, 10, 1), Flat(121, 20, 1)}, h2{Flat(61, 10, 1), Flat(121, 40, 1)};
  CHECK_THAT(EvaluateTrader(a, c, h1, nullptr, em, nullptr).avg_base_gain() == 2);
  CHECK_THAT(EvaluateTrader(a, c, h2, nullptr, em, nullptr).avg_base_gain() == 4);
  DEMO_RETURN();
}""")

cc("g02-shared-signals", "G02", [(E, """  std::vector<float> side_input_signals;
  if (side_input != nullptr) {
""", """  static std::vector<float> side_input_signals;  // Allocated once.
  side_input_signals.clear();
  if (side_input != nullptr) {
""")], "a batch of traders with a side input", "concurrent evaluations overwrite each other's side inputs", r"""
#include <chrono>
#include <thread>
int main() {
  SideHistory sh(400);
  OhlcHistory h;
  for (int i = 0; i < 400; ++i) {
    sh[i].set_timestamp_sec(60 * (i + 1));
    sh[i].add_signal(i);
    h.push_back(Flat(60 * (i + 1), 10, 1));
  }
  SideInput side(sh);
  EvaluationConfig c;
  c.set_start_timestamp_sec(60);
  c.set_end_timestamp_sec(60 * 401);
  c.set_fast_eval(true);
  AccountConfig a;
  a.set_start_base_balance(1);
  static std::atomic<int> wrong{0};
  std::vector<std::unique_ptr<TraderEmitter>> es;
  for (int k = 0; k < 4; ++k)
    es.emplace_back(new ScriptEmitter("x", [k](int n, const OhlcTick& t, const std::vector<float>& s, float, float, std::vector<Order>&) {
      std::this_thread::sleep_for(std::chrono::microseconds(100 + 37 * k * (n % 5)));
      if (s.size() != 2 || s[0] != n) ++wrong;
    }));
  auto r = EvaluateBatchOfTraders(a, c, h, &side, es);
  CHECK_THAT(r.size() == 4);
  CHECK_THAT(wrong == 0);
  DEMO_RETURN();
}""")

V = "indicators/volatility.cc"
NDEBUG = """
objs() { for s in base/account.cc base/history.cc base/side_input.cc eval/eval.cc indicators/util.cc indicators/volatility.cc indicators/last_n_ohlc_ticks.cc util/time.cc _build/gen/base/base.pb.cc _build/gen/eval/eval.pb.cc; do
  g++ -std=c++17 -O0 -w $1 -DHAVE_ZLIB -I"$repo" -I"$repo/_build/gen" $(pkg-config --cflags protobuf) -c "$repo/$s" -o "$work/$2-$(basename "$s" .cc).o" & done; wait; }
prog() { g++ -std=c++17 -O0 -w $1 -DHAVE_ZLIB -I"$repo" -I"$repo/_build/gen" $3 "$work"/$2-*.o -o "$work/$2" $(pkg-config --cflags --libs absl_flags absl_flags_parse absl_status absl_statusor absl_strings absl_str_format absl_time absl_memory protobuf zlib) -lpthread || exit 3; }
"""
sh("g03-count-in-assert", "G03", [(V, """        assert(num_ohlc_ticks_ >= 2);
        portfolio_value_.pop_front();
        portfolio_value_.push_back(latest_base_balance_ *
                                       new_ohlc_tick.close() +
                                   latest_quote_balance_);
        ++num_ohlc_ticks_;
""", """        assert(num_ohlc_ticks_++ >= 2);
        portfolio_value_.pop_front();
        portfolio_value_.push_back(latest_base_balance_ *
                                       new_ohlc_tick.close() +
                                   latest_quote_balance_);
""")], "a build with NDEBUG", "the number of ticks is not counted in a release build", NDEBUG + """
cat > v.cc <<'X'
#include "indicators/volatility.h"
#include <cstdio>
int main() {
  trader::Volatility v(0, 60);
  for (int i = 1; i < 10; ++i) {
    trader::OhlcTick t;
    t.set_timestamp_sec(60 * i);
    t.set_open(i); t.set_high(i); t.set_low(i); t.set_close(i); t.set_volume(1);
    v.Update(t, 1, 0);
  }
  printf("%d %.6f\\n", v.GetNumOhlcTicks(), v.GetVolatility());
}
X
objs "" debug; prog "" debug v.cc
objs -DNDEBUG release; prog -DNDEBUG release v.cc
[ "$(./debug)" = "$(./release)" ] || fail "$(./debug) / $(./release)"
""")

sh("g03-debug-validation", "G03", [(C, """        const absl::Status validation_status = validate(message);
""", """#ifndef NDEBUG
        const absl::Status validation_status = validate(message);
#else
        const absl::Status validation_status;
#endif
""")], "a build with NDEBUG and an invalid record", "a release build accepts records that a debug build refuses", NDEBUG + """
cat > w.cc <<'X'
#include "base/base.h"
#include "util/proto.h"
int main() {
  std::vector<trader::OhlcTick> v(1);
  v[0].set_timestamp_sec(1483228800);
  return trader::WriteDelimitedMessagesToFile(v.begin(), v.end(), "in.pb", true).ok() ? 0 : 1;
}
X
objs -DNDEBUG release
prog -DNDEBUG release w.cc && ./release || exit 3
prog -DNDEBUG release "$repo/convert.cc"
./release --input_ohlc_history_delimited_proto_file=in.pb --output_ohlc_history_delimited_proto_file=out.pb > out.txt 2>&1 && fail "release build accepts a tick without a price"
""")

cc("g04-side-age-int", "G04", [("base/side_input.cc", """int SideInput::GetSideInputIndex(int64_t timestamp_sec) const {
  return std::upper_bound(timestamp_sec_history_.begin(),
                          timestamp_sec_history_.end(), timestamp_sec) -
""", """int SideInput::GetSideInputIndex(int64_t timestamp_sec) const {
  const int query_sec = timestamp_sec;
  return std::upper_bound(timestamp_sec_history_.begin(),
                          timestamp_sec_history_.end(), query_sec) -
""")], "times after January 2038", "later times find no side input", r"""
int main() {
  SideHistory sh(1);
  sh[0].set_timestamp_sec(60);
  sh[0].add_signal(1);
  SideInput s(sh);
  CHECK_THAT(s.GetSideInputIndex(3000000000) == 0);
  DEMO_RETURN();
}""")

cc("g04-stop-clock", "G04", [("traders/stop_trader.h", "  int64_t last_timestamp_sec_ = 0;", "  uint32_t last_timestamp_sec_ = 0;")],
   "times after February 2106", "the trader sees a gap on every tick and never moves its stop price", r"""
#include "traders/stop_trader.h"
int main() {
  StopTraderConfig c;
  c.set_stop_order_margin(0.1);
  c.set_stop_order_move_margin(0.1);
  c.set_stop_order_increase_per_day(0.01);
  c.set_stop_order_decrease_per_day(0.1);
  float p[2];
  for (int k = 0; k < 2; ++k) {
    StopTrader t(c);
    std::vector<Order> o;
    t.Update(Flat(1500000000 + k * 4000000000ll, 100, 1), {}, 1, 0, o);
    o.clear();
    t.Update(Flat(1500000300 + k * 4000000000ll, 50, 1), {}, 1, 0, o);
    p[k] = o[0].price();
  }
  CHECK_THAT(p[0] == p[1]);
  DEMO_RETURN();
}""", ["traders/stop_trader.cc", "traders/trader_config.pb.cc"])

sh("f13-long-gap", "F13", [(C, "  const int64_t hours = duration_sec / 3600;", "  const int64_t hours = (duration_sec / 3600) % 24;")],
   "a gap of more than a day", "the length of a gap is shown without its days", """
printf '1483228800,100,1\\n1483228860,100,1\\n1483408860,100,1\\n' > in.csv
"$convert" --input_price_history_csv_file=in.csv > out.txt 2>&1 || exit 3
grep -q ': 50:00:00$' out.txt || fail "length of the gap: $(grep 1483408860 out.txt)"
""")

sh("f13-cleaned-context", "F13", [(C, """  PrintOutliersWithContext(
      /*begin=*/price_history.begin(),
      /*end=*/price_history.end(), outlier_indices,""", """  PrintOutliersWithContext(
      /*begin=*/price_history_clean.begin(),
      /*end=*/price_history_clean.end(), outlier_indices,""")],
   "an outlier before the last records", "the outliers are shown with the records of the history from which they were removed", """
awk 'BEGIN { for (i = 0; i < 60; ++i) printf "%d,%d,1\\n", 1483228800 + i * 60, i == 30 ? 9000 : 100 }' > in.csv
"$convert" --input_price_history_csv_file=in.csv --output_ohlc_history_delimited_proto_file=out.pb > out.txt 2>&1 || exit 3
grep -q '^ x 1483230600 .*: 9000.00' out.txt || fail "outlier: $(grep '^ x' out.txt)"
""")

sh("f13-distant-block", "F13", [(C, "    if (index_prev > 0 && index > index_prev + 1) {", "    if (index_prev > 0 && index > index_prev + 5) {")],
   "two outliers with one to four records between their contexts", "the records shown around two near outliers look as if they followed each other", """
awk 'BEGIN { for (i = 0; i < 90; ++i) printf "%d,%d,1\\n", 1483228800 + i * 60, i == 30 || i == 43 ? 9000 : 100 }' > in.csv
"$convert" --input_price_history_csv_file=in.csv --output_ohlc_history_delimited_proto_file=out.pb > out.txt 2>&1 || exit 3
[ $(grep -c '^   [.][.][.]' out.txt) = 1 ] || fail "not separated"
""")
