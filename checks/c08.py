import vk
LEVEL = "model_checking"
def run(ck):
    ck.assumptions = ["two unique pointers and one released pointer; two shared, two weak and one C++-held shared pointer; 12 unique and 22 shared element kinds",
                      "AddressSanitizer, an object ledger, use counts and allocation counters observe ownership errors"]
    vk.rt_check(ck, "c08", quick_budget=40_000, bfs_q=800, thorough_budget=3_000_000, bfs_t=60_000)
