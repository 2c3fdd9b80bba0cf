p("C01","Calendar dates round-trip and advance one civil day at a time",
  "For every date in the supported range (1970-01-02 to 2149-06-05), converting to year/month/day or ISO text and back gives the same date, adding k days moves by exactly k civil days of the Gregorian calendar, weekday and weekend are the civil ones, and comparisons and differences agree with day order. Serial numbers and years outside the range give the invalid date, never another day, and text naming a day that does not exist is refused.",
  "inputs","every date serial in the supported range and every existing year/month/day triple",
  "tests sample a few dozen dates; leap-year, century and range-edge behaviour need all 2^16 serials",
  "dal/time/date.cpp dal/time/date.hpp dal/time/dateutils.cpp",[("serial/YMD conversion","dal/time/date.cpp"),("text parsing","dal/time/dateutils.cpp")])
p("C02","Month arithmetic keeps the day, capped at month end",
  "Adding any number of months to a date gives the same day of the target month, capped at that month's length, and with the end-of-month flag a month-end date goes to the target month's end. Days-in-month and end-of-month follow the Gregorian calendar.",
  "inputs","every start day, month shift and end-of-month flag whose result stays in range",
  "tests sample a handful of month shifts; the combinations of day, month length, leap year, sign and flag are thousands",
  "dal/time/date.cpp",[("AddMonths, EndOfMonth, DaysInMonth","dal/time/date.cpp")])
p("C03","Date-times read back, compare and add as instants",
  "A date-time built from a date and an hour/minute/second inside the day reads back exactly those fields (also as text and parsed from text), a millisecond count reads back exactly, comparison is by date then fraction and agrees with the signed difference, and adding a positive number of days moves by that amount with the fraction kept in [0,1). Times outside the day are rejected.",
  "inputs","every hour/minute/second, day and real day fraction",
  "tests read back a few instants; floating truncation errs on isolated instants (5376 of 86400 before the fix)",
  "dal/time/datetime.cpp dal/time/datetimeutils.cpp",[("fraction/HMS conversion","dal/time/datetime.cpp")])
p("C04","Day-count fractions follow their conventions",
  "ACT/360 and ACT/365F are actual days over 360 and 365; ACT/ACT counts each calendar year's days over that year's length; ACT/365L divides actual days by 366 exactly when the reference period's rule (annual: a 29 February after the start up to the nominal end; otherwise: the nominal end's year is a leap year) says so; 30/360 applies the US end-of-month rules. Each documented name selects its convention and unknown names are rejected.",
  "inputs","every pair of dates within the stated windows and every convention name",
  "tests evaluate four conventions on one period each; leap years, month ends and year boundaries are not sampled",
  "dal/time/daybasis.cpp dal/time/daybasis.hpp dal/auto/MG_DayBasis_enum.inc",[("per-convention formulas","dal/time/daybasis.cpp")])
p("C05","Business days and holiday calendars agree day by day",
  "A date is a holiday of a calendar exactly when one of its centres lists it, next/previous business day is the nearest non-skipped business day in that direction (including the date itself), and the business-day count of a period equals the number of business days in it, for single and combined calendars with working weekends. Malformed holiday lists and duplicate centres are rejected.",
  "inputs histories","every placement of holidays and working weekends in the window, every query date and period",
  "tests use one fixed calendar and a few dates; the counting shortcut over whole weeks depends on how holidays fall",
  "dal/time/holidays.cpp dal/time/holidaydata.cpp",[("CountBusDays_ whole-week shortcut","dal/time/holidays.cpp"),("combination cache","dal/time/holidays.cpp"),("AddCenter validation","dal/time/holidaydata.cpp")])
p("C06","Date increments and schedules step exactly by their tenor",
  "Stepping to a special day (IMM, monthly IMM, CDS, month end) gives the first such day strictly after, or last strictly before, the date; n-unit steps move by n years, months, weeks, calendar or business days. A generated schedule starts at the start date, ends at the maturity, strictly increases, steps by one tenor from its anchor with the stub at the far end, and business-day adjustment rolls each date to its following business day.",
  "inputs","every start date, length, direction, tenor and holiday placement within the windows",
  "tests step from one date per tenor and build a few schedules",
  "dal/time/dateincrement.cpp dal/time/schedules.cpp dal/time/periodlength.cpp",[("special-day stepping","dal/time/dateincrement.cpp"),("DateGenerate/MakeSchedule","dal/time/schedules.cpp")])
p("C07","Strings compare case-insensitively and split, join and parse exactly",
  "String equality, order, hashing and search ignore ASCII case and nothing else, order is a strict total order on the folded text, splitting on a separator gives exactly the pieces between separators (a final empty piece is not reported, other empty ones only on request) and joining puts one separator between items, the condensed form drops exactly blanks and underscores (case folded) and two strings are equivalent exactly when their condensed forms are equal, integers survive conversion to text and back, and the next name counts up. No byte value causes an out-of-bounds access.",
  "inputs","every string of the stated lengths over all byte values",
  "tests compare a few ASCII words; byte values above 127, separators and empty pieces are not sampled",
  "dal/string/strings.cpp dal/string/strings.hpp dal/string/stringutils.cpp",[("case-insensitive traits","dal/string/strings.hpp"),("Condensed/Equivalent, Split","dal/string/strings.cpp")])
p("C08","Cells, settings and enumerations convert without losing the value",
  "A cell holding a number, flag, date, date-time or text reports exactly that kind and gives the value back; integer conversion accepts exactly the integers; boolean text is accepted only in its documented spellings; a dictionary stores the last-written entries case-insensitively, rejects duplicates and its text form reads back the same entries; every enumeration value prints to text that reads back as the same value, and unknown names are rejected.",
  "inputs","every number in the range, every text of the stated lengths and every enumeration alternative",
  "tests convert a few samples of each type",
  "dal/math/cell.cpp dal/math/cellutils.cpp dal/utilities/dictionary.cpp dal/protocol/optiontype.cpp",[("cell type tests","dal/math/cellutils.cpp"),("dictionary text form","dal/utilities/dictionary.cpp"),("generated enum readers","dal/auto")])
p("C09","Adjoint derivatives equal the exact derivatives of the computed function",
  "For every expression built from the AAD number type's operators and functions (with active and passive operands on either side, nested in any order, shared sub-expressions included), the value equals the same computation in plain doubles and the propagated adjoint of every input equals the exact partial derivative of the output. Comparisons compare values.",
  "inputs","every pair of operations from the whole operator set, every operand shape and all real inputs in the domain",
  "tests check a few functions at one point; a wrong derivative in one operand position of one operator is invisible to them",
  "dal/math/aad/expr.hpp dal/math/aad/expr.cpp dal/math/aad/tape.cpp dal/math/aad/node.hpp",[("expression template derivatives","dal/math/aad/expr.hpp"),("adjoint propagation","dal/math/aad/expr.cpp")])
p("C10","The tape keeps its nodes across mark, rewind, clear and reset",
  "A block list holds, in order, exactly the elements appended since the last clear or rewind; rewinding to the mark keeps everything before it and drops everything after it, also across block boundaries, and iterating visits each element once. A tape used path after path with mark and rewind gives the same adjoints as a fresh tape, and resetting adjoints zeroes every node and touches nothing else.",
  "inputs histories","every history of append/mark/rewind/clear operations within the bounds, with block boundaries anywhere",
  "tests use one block and one rewind; errors occur only when a block fills exactly or a mark sits on a boundary",
  "dal/math/aad/blocklist.hpp dal/math/aad/tape.cpp dal/math/aad/tape.hpp",[("block list cursors","dal/math/aad/blocklist.hpp"),("mark/rewind/reset","dal/math/aad/tape.cpp")])
p("C11","Any script text parses to the grammar's tree or is rejected, never misread",
  "For every sequence of script tokens the parser either builds the product or raises an error: it never reads outside the text, never drops or reinterprets tokens, and never loops. Accepted expressions follow the documented precedence and associativity (power, then product and quotient, then sum and difference, left to right; comparisons, then AND, then OR; parentheses override), MIN and MAX take all their arguments, and comments, spacing and letter case do not change what a script means. Assignment targets must be plain variables.",
  "inputs","every token sequence of the stated lengths over the script vocabulary, and generated expressions of the stated shapes",
  "tests parse a few well-formed scripts; malformed and unusual token orders are unbounded in number",
  "dal/script/parser.cpp dal/script/parser.hpp dal/script/event.cpp",[("recursive descent over tokens","dal/script/parser.cpp"),("tokenizer and macros","dal/script/event.cpp")])
p("C12","Evaluating a script computes what the script says, event by event",
  "On every scenario the interpreted evaluation gives each variable exactly the value its statements say: arithmetic, functions, comparisons, AND/OR/NOT, IF/ELSE (nested), assignments and payments (divided by the numeraire and added), with variables starting at their initial values, events applied in date order and each event seeing its own market sample. Evaluating the same scenario twice, or with a copied or moved evaluator, gives the same values.",
  "inputs","all real spots, numeraires and parameters in range over generated statements, conditions and event sequences",
  "tests evaluate a few products with random paths and compare averages loosely",
  "dal/script/visitor/evaluator.hpp dal/script/event.hpp dal/script/node.hpp",[("stack evaluator","dal/script/visitor/evaluator.hpp"),("event dispatch","dal/script/event.hpp")])
p("C13","Compiled scripts give the interpreter's values and sensitivities",
  "For every product, evaluating the compiled form on a scenario gives the same variable values as the interpreted evaluation, for all expressions, conditions, constants, macros, nested IF/ELSE and event sequences, also when evaluated repeatedly. With AAD numbers the adjoints of spots, numeraires and macro constants agree between the two as well.",
  "inputs","all real spots, numeraires and constants in range over generated programs of the stated shapes",
  "tests compare a few compiled products; the fused constant instructions and nested jumps multiply with statement shapes",
  "dal/script/visitor/compiler.hpp dal/script/event.hpp",[("stream compiler and fused constant ops","dal/script/visitor/compiler.hpp"),("compiled interpreter loop","dal/script/visitor/compiler.hpp")])
p("C14","Preprocessing never changes a product's payoffs",
  "Indexing variables, marking conditions as always true, always false or undecided, and processing constant conditions leave the value of every variable on every scenario unchanged, for interpreted and compiled evaluation: a branch is removed only when no scenario can take it.",
  "inputs","all real spots and numeraires in range over generated products of the stated shapes",
  "tests preprocess a few products; a wrongly removed branch needs a scenario at the edge of a computed domain",
  "dal/script/visitor/domainproc.hpp dal/script/visitor/constcondprocessor.hpp dal/script/visitor/ifprocessor.hpp",[("domain propagation","dal/script/visitor/domainproc.hpp"),("constant condition removal","dal/script/visitor/constcondprocessor.hpp")])
p("C15","Domain arithmetic covers every value it claims to bound",
  "For every pair of domains and every members of them, the sum, difference, product, quotient, minimum, maximum, negation, inverse and function images of the members lie in the computed domain; unions and intersections contain exactly the right members; and the queries (can be zero, always positive, constant, bounds) answer true only when true of all members.",
  "inputs","all interval bounds and members within the stated range",
  "tests check a few intervals; soundness must hold for every combination of open, closed and infinite ends",
  "dal/script/visitor/domain.hpp dal/script/visitor/domain.cpp",[("Interval_/Domain_ operations","dal/script/visitor/domain.hpp")])
p("C16","Smoothed evaluation equals exact evaluation away from discontinuities",
  "With smoothing, every variable equals its exactly evaluated value on each scenario where every compared quantity is at least one smoothing width from its threshold; inside the width the result is the linear mix of the two branches' results, and conditions on discrete variables mix by the interpolated degree of truth. Nested conditions, AND/OR/NOT and both branches' assignments included.",
  "inputs","all real spots, inside and outside the smoothing width, over generated products of the stated shapes",
  "tests compare one smoothed price; the error cases depend on nesting and which side of a threshold a spot falls",
  "dal/script/visitor/fuzzy.hpp dal/script/visitor/domain.cpp",[("call spreads, butterflies and branch mixing","dal/script/visitor/fuzzy.hpp")])
p("C17","Script event tables expand schedules and split past from future correctly",
  "A schedule row applies its event at exactly the schedule's dates, with the period start and end placeholders replaced by that period's dates, for its parameters in any order; incomplete or malformed schedules are rejected without reading outside the text. Events before the evaluation date are replayed once: their assignments carry into the future evaluation and their payments do not count. Events sharing a date are applied in table order, others in date order.",
  "inputs histories","every parameter order, truncation and token replacement of schedule rows; every placement of the evaluation date; all real spots in range",
  "tests use one schedule and one past event",
  "dal/script/event.cpp dal/script/event/schedule.cpp dal/script/visitor/pastevaluator.hpp",[("schedule parsing and expansion","dal/script/event/schedule.cpp"),("past event evaluation","dal/script/event.cpp")])
p("C18","Matrix products and linear solves invert each other",
  "Matrix and vector products, weighted inner products and quadratic forms equal their defining sums whatever the result aliases; for tridiagonal, banded, triangular, diagonal and Cholesky decompositions solving (either side, in place or not) inverts multiplying, correlated deviates have the matrix as covariance and consume one deviate per dimension, and conjugate-gradient solves satisfy the system. Sizes that do not fit, zero pivots and writes outside a band are rejected.",
  "inputs","all real entries and right-hand sides in range for every size and shape within the bounds",
  "tests solve one system per decomposition; whole code paths (banded Cholesky, triangular products) had never been run",
  "dal/math/matrix/matrixarithmetic.cpp dal/math/matrix/banded.cpp dal/math/matrix/cholesky.cpp dal/math/matrix/decompositionsmisc.cpp dal/math/matrix/bcg.cpp",[("banded and tridiagonal decompositions","dal/math/matrix/banded.cpp"),("Cholesky","dal/math/matrix/cholesky.cpp"),("products","dal/math/matrix/matrixarithmetic.cpp")])
p("C19","Matrices, arrays and cubes keep their elements through every reshaping",
  "A matrix, n-dimensional array or cube reads back exactly the values written at each position, through any sequence of copying, moving, swapping, resizing, appending, transposing, row and column views and arithmetic updates: elements present before and after a resize keep their value, new elements are the default, no operation touches memory outside the container, and sizes that do not fit are rejected. Formatting lays out every element once, row by row.",
  "inputs histories","all element values, every pair of shapes within the bounds and every position",
  "tests reshape one matrix one way; stale or out-of-bounds elements appear only for particular size changes",
  "dal/math/matrix/matrixs.hpp dal/math/matrix/matrixutils.cpp dal/math/matrix/matrixutils.hpp dal/math/ndarray.cpp dal/math/ndarray.hpp",[("row hooks over one storage vector","dal/math/matrix/matrixs.hpp"),("strides and resize","dal/math/ndarray.cpp")])
p("C20","Interpolators reproduce their knots and interpolate between them as specified",
  "Linear, two-dimensional linear and cubic-spline interpolators return the given value at every knot, are continuous, agree with the straight line (or bilinear form, or the cubic determined by the requested boundary conditions) between knots, and extrapolate as documented outside; knots out of order or of mismatched size are rejected. The result depends linearly on the values.",
  "inputs","all values at the knots and every position in and beyond the knot range",
  "tests check a few points of one table per kind",
  "dal/math/interp/interp.cpp dal/math/interp/interp2d.cpp dal/math/interp/interpcubic.cpp",[("linear lookup","dal/math/interp/interp.cpp"),("spline coefficients","dal/math/interp/interpcubic.cpp")])
p("C21","Curves integrate their forward rates exactly and consistently",
  "A piecewise constant or piecewise linear curve gives at every date the value its knots prescribe, integrates between any two dates to the exact area (additive over adjacent periods, opposite when reversed), and a discount curve built on it discounts by the exponential of minus that integral; base curves add, copies are independent of the original, and knots out of order are rejected.",
  "inputs","all rates and every date pair within the range",
  "tests evaluate a few dates on one curve",
  "dal/curve/piecewiseconstant.cpp dal/curve/piecewiselinear.cpp dal/curve/ycimp.cpp",[("integrals","dal/curve/piecewiseconstant.cpp"),("integrals","dal/curve/piecewiselinear.cpp"),("discount factors","dal/curve/ycimp.cpp")])
p("C22","Option values obey parity and their greeks are their derivatives",
  "For every forward, strike and volatility, call less put equals forward less strike, a straddle is call plus put, the reported delta and vega are the derivatives of the price, without volatility an option is worth its payout, prices scale with forward and strike, and the normal distribution functions are symmetric, monotone and bounded. Distribution objects report what the underlying formulas give, by name.",
  "inputs","all real forwards, strikes and volatilities in range for every option type, Black and Bachelier",
  "tests price a handful of options; errors in one type or one region (in or out of the money, negative forwards) are not sampled",
  "dal/math/distribution/black.hpp dal/math/distribution/black.cpp dal/math/specialfunctions.cpp dal/protocol/optiontype.hpp",[("Black and Bachelier formulas","dal/math/distribution/black.hpp"),("greeks","dal/math/distribution/black.cpp"),("normal distribution","dal/math/specialfunctions.cpp")])
p("C23","Random paths are reproducible wherever they start",
  "Pseudo-random uniforms lie strictly between zero and one and come in antithetic pairs; skipping to path n gives exactly the deviates that generating n paths would lead to, for uniforms and for normals, whatever was drawn before; normals are the normal quantiles of the generator's points; clones keep dimension, seed and precision; a request beyond the dimension is refused. A Brownian bridge is a linear, orthogonal and memoryless transform of its source's normals and skips with it.",
  "histories","skips after any short history of draws, uniform and normal, both generators, one to three dimensions, bridges of up to nine steps over all normals",
  "tests skip once from a fresh generator and only for uniforms of one generator",
  "dal/math/random/pseudorandom.cpp dal/math/random/brownianbridge.cpp",[("generators and skipping","dal/math/random/pseudorandom.cpp"),("bridge","dal/math/random/brownianbridge.cpp")])
p("C24","Queued tasks run exactly once under every schedule",
  "Under every interleaving of producers, consumers, interruption and restart, and with spurious wake-ups: each item pushed on the concurrent queue is popped at most once, in order, and not lost; interrupting ends every wait; each task spawned on the thread pool runs exactly once before its handle is ready, its result or exception reaches the handle, waiting never deadlocks, stopping ends all workers, a restarted pool works and never runs tasks dropped earlier, and none of this contains a data race.",
  "schedules","every schedule of up to three threads with at most two preemptions at synchronisation points and one spurious wake-up",
  "a test run samples a few schedules of the machine it runs on",
  "dal/concurrency/concurrentqueue.hpp dal/concurrency/threadpool.hpp dal/concurrency/threadpool.cpp",[("queue","dal/concurrency/concurrentqueue.hpp"),("pool","dal/concurrency/threadpool.cpp")])
p("C25","Model paths follow their parameters, and their adjoints are the derivatives",
  "For every parameter set, timeline and Gaussian draw: a Black-Scholes path is the spot times the exponential of its accumulated drift and noise on exactly the product's dates, today included or not; a local-volatility path steps with the volatility interpolated in time and log-spot, no step longer than the maximum and every product date hit; numeraires and discounts are those of the rate; a clone has the same path and parameters of its own; adjoints of all parameters equal the derivatives of the path; models built from stored data have its parameters in order, and renamed or mutated data keeps its values. Filled grids keep all their points and leave no gap beyond the maximum.",
  "inputs","all real parameters and draws in range on timelines of up to three dates and small volatility grids",
  "no test looks at a path: tests only store and read back model data or price by simulation to a loose tolerance",
  "dal/model/blackscholes.hpp dal/model/dupire.hpp dal/model/utilities.hpp dal/model/factory.hpp dal/model/base.hpp dal/model/blackscholes.cpp dal/model/dupire.cpp dal/math/interp/interp.hpp",[("Black-Scholes paths","dal/model/blackscholes.hpp"),("local-volatility paths","dal/model/dupire.hpp"),("grid filling","dal/model/utilities.hpp"),("model creation","dal/model/factory.hpp")])
p("C26","A simulation is the sum of its paths, however it is batched and scheduled",
  "For every market, draw and schedule of the pool's threads, a Monte-Carlo run sums each path's payoff exactly once whatever the number of paths and batches, interpreted and compiled alike; with differentiation it has the same value, its sensitivities to every model parameter and script constant are the averages of the paths' derivatives, found by name, and the caller's tape is given back; an error on any path is an error of the run and never a smaller sum, and later runs are unaffected; results can be copied; and there is no data race.",
  "schedules","all normals and market data in range for up to three paths, two batches of over a thousand paths, every schedule with at most one preemption",
  "tests price to a statistical tolerance on one schedule, which hides lost or repeated paths and swallowed errors",
  "dal/script/simulation.hpp dal/concurrency/threadpool.cpp dal/script/event.hpp",[("batches","dal/script/simulation.hpp"),("evaluation","dal/script/event.hpp")])
p("C27","Solvers, smoothers and finite differences satisfy the equations they solve",
  "A one-dimensional root search starts at the guess, hunts with growing steps in the improving direction, then keeps exactly the closest two points of opposite sign, tries only points between them and reports convergence only when a tolerance is met. Difference operators are exact for quadratics on every mesh and a backward step solves the theta scheme of drift, diffusion and discounting with the boundary values held. Meshes have the size asked for, run strictly increasing from end to end and include a required point; a coordinate map and its inverse undo each other and report their own derivatives. Smoothing returns the minimiser of its penalised misfit. An underdetermined search evaluates no more often than allowed, returns only points that meet every tolerance, and solves linear problems with the step of least weight.",
  "inputs","all real function values a solver can be shown, all data and weights in range for small systems, all mesh parameters in range",
  "tests solve one well-behaved equation per solver; a bracket lost or an asymmetric weight only shows for particular sequences of function values",
  "dal/math/rootfind.cpp dal/math/smooth.cpp dal/math/optimization/underdetermined.cpp dal/math/pde/pde.cpp dal/math/pde/fd1d.cpp dal/math/pde/finitedifference.cpp dal/math/pde/meshers/concentrating1dmesher.cpp",[("Brent and hunting","dal/math/rootfind.cpp"),("smoothing","dal/math/smooth.cpp"),("underdetermined search","dal/math/optimization/underdetermined.cpp"),("meshes","dal/math/pde/meshers/concentrating1dmesher.cpp"),("difference schemes","dal/math/pde/finitedifference.cpp")])
p("C28","Stored objects come back as they were, from tables, files and JSON",
  "Any object written to a cell table, a file or JSON and read back has the same type, name and members: numbers exactly, strings, dates, times, flags, vectors, tables and dictionaries of every size including empty ones; an object referenced twice comes back as one object, distinct ones stay distinct; a number's text gives back the number. Reports keep each address's value apart, refuse indices outside their axes, grow only along the first axis and survive storage with their headers; fixings are found at their time and nowhere else. Malformed input of any kind is refused, never misread.",
  "inputs","every kind of member at sizes up to three with symbolic numbers, characters and dates; bags of up to two objects; reports of up to three axes",
  "tests store a couple of objects with round numbers; digits lost, quotes, empty members and shared objects are not sampled",
  "dal/storage/splat.cpp dal/storage/json.cpp dal/storage/archive.cpp dal/storage/bag.cpp dal/storage/box.cpp dal/risk/report.cpp dal/indice/fixings.cpp dal/string/strings.cpp dal/utilities/file.cpp",[("tables and files","dal/storage/splat.cpp"),("JSON","dal/storage/json.cpp"),("shared objects","dal/storage/archive.cpp"),("reports","dal/risk/report.cpp"),("fixings","dal/indice/fixings.cpp")])
p("C29","Repository, global dates and fixings keep exactly what they were given",
  "After any history of adds, erases and searches, each tag fetches its own object until that object is erased, and replacing an object by name or by type erases exactly the objects of that name or type and no other. Global dates are the ones last set; overrides hold in their scope, nest, survive being moved and are undone at its end, also after an error. Stored fixings are replaced or merged as asked and read back as they were. An environment finds the innermost entry of a kind; an auditor returns what it noticed and starts passive. Concurrent readers of the repository and the stores never see a half-done replacement or append, and there is no data race.",
  "histories","histories of up to three operations on four objects with symbolic names; all dates of a month; two stores of up to two fixings; every schedule of two threads with at most two preemptions",
  "tests add and fetch one object from one thread; names that start alike, interrupted scopes and concurrent replacement are not sampled",
  "dal/storage/_repository.cpp dal/storage/globals.cpp dal/storage/globals.hpp dal/storage/audit.cpp dal/utilities/environment.hpp public/src/repository.cpp",[("repository","dal/storage/_repository.cpp"),("global dates and fixings","dal/storage/globals.cpp"),("environment","dal/utilities/environment.hpp"),("audit","dal/storage/audit.cpp")])
p("C30","Indices, fixings and rate conventions name, parse and date consistently",
  "An equity or currency index reads back from its own name, is its own clone, and delivers on the date it names; a malformed or unknown name is refused and never dereferences nothing. A fixing is found at its own time and no other; a currency pair uses its own fixing first and otherwise one over the opposite one. Historical paths clamp to their collar, ramp across their range, and count as in range only when every monitored time is. Spot and fixing lags count business days, and undo each other on business days. Traded rates keep the period and clearer they were built from; currency facts are the specific ones or else the default; an underlying keeps the latest date it was given; accrual periods, payments and coupon rates are as stated.",
  "inputs","names of up to three symbolic characters per part, two fixings of symbolic times and values, paths of up to three symbolic fixings, every date of a month, every currency and traded rate",
  "tests parse a few well-formed names; malformed names, missing fixings, inverse pairs, boundary values of the collars and lags across holidays are not sampled",
  "dal/indice/index.cpp dal/indice/indexparse.cpp dal/indice/indexpath.cpp dal/indice/index/equity.cpp dal/indice/index/fx.cpp dal/indice/index/ir.cpp dal/indice/parser/equity.cpp dal/indice/parser/fx.cpp dal/protocol/couponrate.cpp dal/protocol/assetvalue.cpp dal/protocol/underlying.cpp dal/protocol/conventions.cpp dal/currency/currencydata.cpp",[("index names and parsing","dal/indice/indexparse.cpp"),("fixings and historical paths","dal/indice/indexpath.cpp"),("rate conventions","dal/protocol/conventions.cpp")])
p("C31","Public entry points price, differentiate and draw exactly what was asked",
  "Pricing a product by simulation returns the average of its payoffs over the paths drawn, the same with and without sensitivities, and each sensitivity d_<name> is the derivative of that price to that parameter; the generator, the bridge and the evaluation mode asked for are the ones used, and asking again gives the same numbers. Missing products or models, unknown generators and no paths at all are refused. Matrices of random numbers hold the generator's consecutive paths, one per row, and continue where the generator is; interpolation objects evaluate as their data say.",
  "inputs","products of one or two events on up to four paths with symbolic model parameters and draws; generators of up to three dimensions; up to three symbolic knots",
  "tests price one product and compare with a closed form to a few digits; that every path counts once, that sensitivities belong to their names and that refusals happen before memory is touched is not sampled",
  "public/src/value.cpp public/src/random.hpp public/src/interp.cpp dal/script/simulation.cpp",[("valuation by simulation","public/src/value.cpp"),("random matrices","public/src/random.hpp"),("interpolation objects","public/src/interp.cpp")])
p("C32","Volatility surfaces price calls and calibrate local volatilities",
  "A call is the Black (or Bachelier) value at the total volatility; a jump price is the Poisson-weighted sum of Black prices with the forward and variance of each number of jumps, the drift compensated. An implied volatility gives back the price it is implied by, at every maturity. A surface's call uses its own volatility plus the spread asked for; spreads are bilinear between their nodes, flat beyond, and bumps add up where they are made. Local variance is Dupire's ratio of the surface's prices; a calibration holds it within two and a half deviations of the spot and extends it flat beyond, for every grid, also one with no spot that near. Filled grids keep every given point, increase, and never step further than asked.",
  "inputs","spot, strike and volatility symbolic; surfaces of up to 2 x 3 symbolic spreads; grids of up to five points; four sets of jump parameters",
  "no test builds a surface or calibrates one",
  "dal/model/ivs.hpp dal/model/ivs.cpp dal/math/analytics/vanilla.hpp dal/math/analytics/vanilla.cpp dal/model/dupire.hpp dal/model/utilities.hpp",[("surfaces and local volatility","dal/model/ivs.hpp"),("vanilla prices","dal/math/analytics/vanilla.hpp"),("calibration","dal/model/dupire.hpp")])
p("C33","Sequence algorithms, statistics and stacks do what they say",
  "Transforms, copies, filters, concatenations, zips and reversals apply to every element in order and refuse results or partners of another size; unique elements come sorted, each once, under the order asked for; bounds and searches find the first element not below or above; keys and values come in the order of the keys. Sums, inner products, means, covariances and norms are those of the elements; numbers become the nearest or truncated integer or are refused. A stack, after any history of pushes, pops, resets, clears, copies and moves, gives back exactly what was pushed and not popped, most recent first.",
  "inputs histories","sequences of up to four symbolic elements, stacks of initial capacity 0 to 2 under every sequence of five operations",
  "tests call each algorithm on one example; unequal sizes, repeated elements, growth after clearing or moving are not sampled",
  "dal/utilities/algorithms.hpp dal/utilities/numerics.hpp dal/utilities/numerics.cpp dal/utilities/functionals.hpp dal/utilities/maps.hpp dal/math/vectors.hpp dal/math/stacks.hpp",[("sequence algorithms","dal/utilities/algorithms.hpp"),("statistics","dal/utilities/numerics.hpp"),("stacks","dal/math/stacks.hpp")])
