from hcommon import *

RULE = ("As C13, for x-means: the model divides a group only when the Bayesian information score of the children beats the "
        "parent's. Non-trivial when the model takes at least one decision after >=2 passes, with no near-tie in any "
        "distance or score; forgy starts count when the result has several clusters (validity only).")
ASSUMPTIONS = ["cases in which rounding could decide an assignment or a decision are checked for validity only",
               "when the cluster limit cuts off some of several candidates of one round, any choice of them is accepted; cases with "
               "too many choices are checked for validity only",
               "pass limits are at least 1, k at least 2"]
SUBS = [Sub("xmeans", hcases("xmeans"), t_hier, 8000, 120000),
        Sub("xmeans-large", hcases("xmeans", 400, 12, 100), t_hier, 1600, 20000),
        Sub("xmeans-wide", hcases("xmeans", 900, 60, 100), t_hier, 600, 8000),
        Sub("xmeans-cols", grown(hcases("xmeans"), m=COLS), t_hier, 300, 4000),
        Sub("xmeans-huge", grown(hcases("xmeans", max_m=3), HUGE), t_hier, 160, 2000)]
