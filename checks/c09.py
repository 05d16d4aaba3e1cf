import os
import vk
LEVEL = "model_checking"
def run(ck):
    ck.assumptions = ["each value type in every signature position with 4 boundary values, and every ordered pair of such calls; one of every argument list shape of 0 to 12 arguments",
                      "x86-64 System V ABI with the installed rustc and g++; AddressSanitizer and allocation counters observe lifetime errors"]
    b = os.path.join(vk.cargo_build(ck, "rt", ["--features", "c09"], asan=True), "rt")
    jobs = []
    for s, n in vk.systems(b):  # every operation, then every operation in every state that left
        jobs.append((s, ["bfs", 9000, 2]))
        if not ck.quick and n < 200:
            jobs += [(s, ["dfs", 3, k, 4]) for k in range(4)]
    vk.explore(ck, b, jobs, ck.pick(60, 700))
