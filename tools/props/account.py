from . import p

F = ["base/account.h", "base/account.cc", "base/base.h", "base/base.proto"]
ST = [("base balance, quote balance, accumulated fee", "the simulated account"), ("base unit, quote unit", "smallest indivisible amounts"),
      ("market liquidity, maximum volume ratio", "execution model parameters")]
O = ["Account::ExecuteOrder", "Account balances"]
CFGS = "all valid account configurations, orders and OHLC ticks (any real prices, amounts, fees, units)"

p("A01", "Balances never become negative",
  "Starting from non-negative balances and a valid configuration, executing any order on any tick never makes the base balance, the quote balance "
  "or the accumulated fee negative. The exchange has no credit.",
  ["inputs", "configurations", "histories"], CFGS + "; every sequence of orders, by induction over single orders",
  "Tests sample a few dozen (order, tick, fee) triples; overdrafts appear only for fees, units or amounts close to the balance.",
  F, [("settlement primitives compare cost plus fee and sold amount with the balances before subtracting", "base/account.cc")], ST, O)
p("A02", "Order execution is all or nothing and truthfully reported",
  "If an order is reported as not executed, neither balance nor the accumulated fee has changed. If it is reported as executed, the account was debited "
  "and credited.",
  ["inputs", "configurations"], CFGS + "; every rejection path of every order kind",
  "Tests check the balances after a handful of rejections; a partial update on one of the many rejection paths needs its specific fee/unit combination.",
  F, [("all checks precede the first balance write in each settlement primitive", "base/account.cc")], ST, O)
p("A03", "Executed orders conserve value up to fee and rounding",
  "An executed order moves the base balance by the traded amount rounded to the base unit and the quote balance by amount times price rounded to the quote "
  "unit against the trader (up for purchases, down for proceeds), minus the fee. The accumulated fee grows by exactly the fee deducted.",
  ["inputs", "configurations"], CFGS,
  "Tests fix a few prices, fees and units (mostly zero units); the law relates all of them for arbitrary values.",
  F, [("BuyBase, SellBase, BuyAtQuote, SellAtQuote", "base/account.cc"), ("Round/Floor/Ceil", "base/base.h")], ST, O)
p("A04", "Fee formula and fee schedule per order type",
  "The fee on a quote amount is the larger of the minimum fee and the fixed fee plus the relative fee times that amount, rounded up to the quote unit. Market, "
  "stop and limit orders are charged with the market, stop and limit fee schedule respectively.",
  ["inputs", "configurations"], "all fee schedules and quote amounts; all order types, sides and amount kinds",
  "Tests use equal fee schedules for several order types and few amounts, so a swapped schedule or an exchanged max/sum is visible only for particular values.",
  F, [("GetFee", "base/account.cc"), ("order dispatch selects the fee schedule", "base/account.cc")], ST, O)
p("A05", "Every order is settled as what it says it is",
  "An order buys or sells, by base amount or by quote amount, exactly as its side and amount field say, with its own amount, at most once, on the account it is "
  "executed on; the reported outcome is the outcome of that settlement.",
  ["inputs", "configurations"], "all twelve combinations of order type, side and amount kind, with every amount, price and tick",
  "Tests sample some of the combinations with particular numbers; the dispatch is a product of three enumerations and a tick.",
  F, [("ExecuteOrder dispatch", "base/account.cc")], ST, O)
p("A06", "Stop and limit orders trigger exactly when the tick reaches their price",
  "A market order is attempted on every tick. A stop buy or limit sell is attempted exactly if the tick's high is at least the order price, a stop sell or "
  "limit buy exactly if its low is at most the order price.",
  ["inputs"], "all ticks and order prices, including equality and gaps beyond the order price",
  "Tests use prices strictly inside or outside of the tick; ties and gap-opening ticks are a measure-zero set.",
  F, [("MaybeExecute stop/limit guards", "base/account.cc")], ST, O)
p("A07", "Fill price model",
  "Market orders fill at the opening price weighted with the liquidity plus the worst price of the tick weighted with the rest; stop orders use the worse of "
  "order price and opening price in place of the opening price; limit orders fill at the order price. Worst means high for purchases and low for sales, so a "
  "fill lies inside the tick's price range and a trader never gets a better price than the market offered.",
  ["inputs", "configurations"], "all ticks, order prices and liquidities in [0, 1]",
  "Tests use liquidity 0, 0.5 and 1 on one or two ticks.",
  F, [("GetMarketBuyPrice, GetMarketSellPrice, GetStopBuyPrice, GetStopSellPrice", "base/account.cc")], ST, O + ["price queries"])
p("A08", "Limit orders fill at most the configured share of the tick volume",
  "With a positive maximum volume ratio, one limit order trades at most the ratio times the tick's volume, rounded down to the base unit; it is filled "
  "partially rather than refused. Without a ratio, and for market and stop orders, volume does not limit the fill.",
  ["inputs", "configurations"], "all volumes, ratios, units and limit orders",
  "Tests cover one ratio; the cap has to be applied for both sides and both amount kinds.",
  F, [("GetMaxBaseAmount and limit order methods", "base/account.cc")], ST, O)
p("A09", "Orders are refused exactly when they cannot be filled, on the unit grid",
  "A settlement is refused exactly if the rounded amount is zero or below the base unit, is not covered by the balance including the fee, or yields less than "
  "one quote unit after the fee. When a unit is configured, the balance an executed order writes is a whole number of units.",
  ["inputs", "configurations"], CFGS,
  "Tests exercise a few refusals; off-by-one comparisons (strict/non-strict) and a missing rounding show only at boundary values.",
  F, [("acceptance tests of the settlement primitives", "base/account.cc")], ST, O)
p("A10", "Quote orders respect their budget",
  "A buy of a quote amount trades the largest whole number of base units whose price plus the fee on the budget fits into the budget; a sale for a quote "
  "amount trades the corresponding amount for budget plus fee; both respect the base amount cap of the order.",
  ["inputs", "configurations"], CFGS + "; every budget",
  "Tests check a few budgets with simple fees; a fee on the wrong base or a rounding in the wrong direction is visible only for particular values.",
  F, [("BuyAtQuote, SellAtQuote", "base/account.cc")], ST, O,
  note="Decides the traded amount (and acceptance) as a formula over the reals; the inequality 'spent <= budget' itself additionally needs real arithmetic about "
       "ceil(floor(.)) that is argued in DESIGN.md, and float rounding is outside it.")
p("A12", "Account set-up and fixed parameters",
  "A new account starts with the configured balances, units, liquidity and volume ratio and no accumulated fee, and trading changes only the two balances and "
  "the accumulated fee.",
  ["configurations", "histories"], "all account configurations, including unset optional fields; all orders",
  "Tests initialise accounts by hand or with one configuration; a parameter taken from the wrong field needs a configuration that tells them apart.",
  F, [("InitAccount", "base/account.cc")], ST, O)
