from hcommon import *

RULE = ("As C13, for g-means: the model divides a group only when its projections on the line between the children fail the "
        "Anderson-Darling test at the strictness for the group's size. Non-trivial when the model takes at least one "
        "decision after >=2 passes, with no near-tie in any distance or statistic.")
ASSUMPTIONS = ["cases in which rounding could decide an assignment or a decision are checked for validity only",
               "when the cluster limit cuts off some of several candidates of one round, any choice of them is accepted; cases with "
               "too many choices are checked for validity only",
               "pass limits are at least 1, k at least 2"]
SUBS = [Sub("gmeans", hcases("gmeans"), t_hier, 8000, 120000),
        Sub("gmeans-large", hcases("gmeans", 400, 12, 100), t_hier, 1600, 20000),
        Sub("gmeans-wide", hcases("gmeans", 900, 60, 100), t_hier, 600, 8000),
        Sub("gmeans-cols", grown(hcases("gmeans"), m=COLS), t_hier, 300, 4000),
        Sub("gmeans-huge", grown(hcases("gmeans", max_m=3), HUGE), t_hier, 160, 2000)]
