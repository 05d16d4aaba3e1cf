import vk
LEVEL = "model_checking"
def run(ck):
    ck.assumptions = ["two vectors of at most 5 elements with 4 values per element kind (including the extreme values of each primitive); 18 element kinds",
                      "AddressSanitizer, an object ledger and allocation counters observe lifetime errors"]
    vk.rt_check(ck, "c07", quick_budget=60_000, bfs_q=1500, thorough_budget=3_000_000, bfs_t=60_000)
