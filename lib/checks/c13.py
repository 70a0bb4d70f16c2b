from hcommon import *

RULE = ("A case is a data matrix (incl. separated groups, duplicates, grids), two start centers (or forgy), cluster limit, "
        "minimum cluster size, metric, pass limit, tolerance and thread count. The result must be a valid partition within "
        "the limit and, for given starts, equal the partition of a divisive two-means model. Non-trivial when the model "
        "performs at least one division with >=2 passes and meets no near-tie.")
ASSUMPTIONS = ["cases in which rounding could decide an assignment or a decision are checked for validity only",
               "when the cluster limit cuts off some of several candidates of one round, any choice of them is accepted; cases with "
               "too many choices are checked for validity only",
               "pass limits are at least 1, k at least 2"]
SUBS = [Sub("hclust", hcases("hclust"), t_hier, 8000, 120000),
        Sub("hclust-large", hcases("hclust", 400, 12, 100), t_hier, 1600, 20000),
        Sub("hclust-wide", hcases("hclust", 900, 60, 100), t_hier, 600, 8000),
        Sub("hclust-cols", grown(hcases("hclust"), m=COLS), t_hier, 300, 4000),
        Sub("hclust-huge", grown(hcases("hclust", max_m=3), HUGE), t_hier, 160, 2000)]
