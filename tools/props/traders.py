from . import p

SF = ["traders/stop_trader.cc", "traders/stop_trader.h", "traders/trader_config.proto"]
RF = ["traders/rebalancing_trader.cc", "traders/rebalancing_trader.h", "traders/trader_config.proto"]
NOTEST = "The traders have no unit tests at all; a back-test only shows a plausible looking gain."

p("T01", "Every order a trader emits is complete and earlier orders are kept",
  "Whatever the tick, the balances and the trader's state, every order a trader appends has its type and side set, exactly one of base and quote amount, and a price if it "
  "is a limit or stop order. A trader only appends to the list of orders it is given.",
  ["inputs", "histories"], "all states, ticks, balances and configurations of every trader class",
  NOTEST, SF + RF, [("StopTrader::EmitStopOrder", "traders/stop_trader.cc"), ("RebalancingTrader::Update", "traders/rebalancing_trader.cc")],
  [("orders", "output list of Update")], ["Trader::Update"])
p("T02", "The stop trader always has one stop order over its whole holding",
  "Every update emits exactly one stop order. If the base balance is worth at least the quote balance at the close price, the order sells the whole base balance; otherwise it "
  "spends the whole quote balance on buying.",
  ["inputs", "histories"], "all positive prices and balances, all states",
  NOTEST, SF, [("StopTrader::Update, EmitStopOrder", "traders/stop_trader.cc")], [("mode", "LONG or CASH")], ["StopTrader::Update"])
p("T03", "The stop price only moves towards the market, at the configured rate",
  "On its first update, when the stop trader changes side, and after an hour or more without a tick, the stop price is the close price less (selling) or plus (buying) the stop "
  "order margin. Otherwise a selling stop only rises and a buying stop only falls: by at most the configured rate per day in proportion to the time passed, never past the close "
  "price less or plus the move margin, and not at all while it is closer than that.",
  ["histories"], "all sequences of ticks with increasing time, all configurations with positive margins and rates",
  NOTEST + " The rate and the gap rule depend on the time between ticks.", SF, [("StopTrader::Update, UpdateStopOrderPrice", "traders/stop_trader.cc")],
  [("stop_order_price_, mode_, last_timestamp_sec_", "carried between updates")], ["StopTrader::Update", "Order.price"])
p("T04", "The rebalancing trader keeps the base share within its band",
  "If the base share of the portfolio at the close price is outside alpha(1-epsilon) to alpha(1+epsilon), exactly one market order is emitted, over the base amount that brings "
  "the share back to alpha. Otherwise, if both balances are present, limit orders are placed at the prices at which the share would reach the two ends of the band, each over the "
  "amount that restores alpha there; a sell only above and within 100 times the close price, a buy only below it and above a hundredth of it.",
  ["inputs"], "all positive prices and balances, alpha and epsilon in (0, 1)",
  NOTEST, RF, [("RebalancingTrader::Update", "traders/rebalancing_trader.cc")], [("balances", "as given to Update")], ["RebalancingTrader::Update"])
p("T05", "A trader emitter's traders and name carry exactly its configuration",
  "Every trader an emitter creates is a new object that holds each configuration value the emitter was given. The emitter's name starts with a text of its own kind and shows every "
  "configuration value to at least three decimals, in a fixed order.",
  ["inputs"], "all configurations of every emitter class",
  NOTEST, SF + RF, [("NewTrader, GetName of both emitters", "traders/")], [("trader_config_", "of emitter and trader")], ["TraderEmitter::NewTrader", "TraderEmitter::GetName"])
p("T06", "A trader batch holds every parameter combination once, by trader name",
  "A batch built from lists of parameter values has one emitter for every combination, with each value in the parameter it was listed for. The trader names \"rebalancing\" and "
  "\"stop\" select the default trader of that kind (alpha 0.7, epsilon 0.05; margins 0.1, rates 0.01 up and 0.1 down) and the batch of that kind.",
  ["inputs"], "all value lists, both trader names",
  NOTEST + " A swapped parameter in one of 144 combinations is not visible in the printed results.", SF + RF + ["traders/trader_factory.cc"],
  [("GetBatchOfTraders of both emitters", "traders/"), ("GetTrader, GetBatchOfTraders", "traders/trader_factory.cc")], [("batch", "vector of emitters")],
  ["GetTrader", "GetBatchOfTraders"])
p("T07", "A trader's state line reports its last update",
  "After an update, the internal state text of a trader is, separated by commas, the timestamp of the tick, the base and quote balance it was given and the close price, with at "
  "least three decimals. The stop trader adds LONG or CASH according to its side, and its stop price.",
  ["inputs", "histories"], "all ticks, balances and states",
  NOTEST, SF + RF, [("GetInternalState of both traders", "traders/")], [("last_* fields", "state of the trader")], ["Trader::GetInternalState"])
