"""One source for properties.jsonl and MANIFEST.json: python3 tool/meta.py"""
import json
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "contract-based deductive verification of the real C++: contracts in /verif, symbolic execution of the clang AST of /repo's current source, obligations to z3 and an algebraic normal form; failed obligations replayed on the compiled code"
META = []


def three(s):
    """at most three sentences (schema): the shortest neighbours are joined by semicolons"""
    import re
    xs = re.split(r"(?<=[a-z0-9)'])\. (?=[A-Z])", s)
    while len(xs) > 3:
        i = min(range(len(xs) - 1), key=lambda j: len(xs[j]) + len(xs[j + 1]))
        y = xs[i + 1]
        w = y.split()[0]
        if w[1:].islower() or len(w) == 1:
            y = y[0].lower() + y[1:] if w not in ("Kalman", "Jacobian", "Joseph", "Jacobians") else y
        xs[i:i + 2] = [xs[i].rstrip(".") + "; " + y]
    return ". ".join(xs)


def prop(id, title, statement, over, qtext, why, files, mech, note, state=None, observe=None, level="proof", tech=TECH):
    assert len(title) <= 80, (id, len(title))
    META.append(dict(id=id, title=title, statement=three(statement), over=over, qtext=qtext, why=why, files=files, mech=mech, note=note,
                     state=state or [], observe=observe or [], level=level, tech=tech))


NA = []
COMMON = "Reals for doubles; Eigen, libstdc++ and libm by assumed contracts; executor and prover are own code. The same postconditions are also evaluated on the compiled code (bounded, never counted as proved)."

prop("P03", "State correction adds vectors linearly and composes rotations",
     "Adding an error vector to any state, of the whole filter or of one sensor, adds each three-vector entry to its quantity and composes the orientation with the rotation of its own three entries, on the documented side. Entries of quantities that are not estimated are not consumed, sensors are visited in identifier order, and no quantity outside the vector's reach changes. Adding a state of the same sensors adds each quantity and turns each orientation further by the other's; orientations stay unit quaternions.",
     ["inputs", "configurations"], "for every set of sensors and flags, every number of clones, and every error vector",
     "types_test.cpp adds a few fixed vectors to states with one sensor of each kind.",
     ["src/ekf/types.cpp"], [{"name": "operator+= of every state type", "where": "src/ekf/types.cpp"}], COMMON,
     observe=["state after the addition"])
prop("P05", "Matrix insertion and removal keep every other entry in its relative place",
     "Inserting a block in a covariance at a row and column puts the block there, zeros in the rest of its rows and columns, and keeps every other entry in its relative place. Removing rows and columns drops exactly those and keeps the others in order, so removal undoes insertion. Bounding a vector from below returns the larger of each entry and the bound.",
     ["inputs"], "for every matrix size, block size and position inside the matrix",
     "math_helper_test.cpp checks two 2x2 / 3x3 examples.",
     ["src/utility/math_helper.cpp"], [{"name": "InsertInMatrix, RemoveFromMatrix, MinBoundVector", "where": "src/utility/math_helper.cpp"}], COMMON,
     observe=["returned matrix"])
prop("P06", "Cloning the pose is exact in the covariance; marginalising keeps the rest",
     "Cloning the body pose into the state gives a covariance in which the clone's rows and columns equal those of the body position and orientation, and all old entries keep their values. Removing a clone leaves the covariance of the remaining states unchanged. Both hold for the covariance and for the square-root form, where the root's product gives exactly that covariance.",
     ["inputs", "configurations"], "for every covariance or upper triangular root of any size, and every clone position after the body state",
     "ekf_test.cpp checks one covariance of fixed size in covariance form and the shape in the root form.",
     ["src/ekf/ekf.cpp"], [{"name": "AugmentCovariance, MarginalizeCovariance", "where": "src/ekf/ekf.cpp"}], COMMON,
     observe=["returned covariance or root"])
prop("P08", "The measurement update is the Kalman update in both covariance forms",
     "A measurement update with Jacobian H, residual r and noise N changes the state by exactly one correction K r, with K the optimal Kalman gain for the filter's covariance P. The new covariance is the Joseph form (I-KH)P(I-KH)'+KNK', symmetric and of the same size; in square-root form the root's product is that matrix. The covariance and square-root forms therefore give the same estimate.",
     ["inputs", "configurations"], "for every state size, number of measurement rows, covariance, Jacobian, residual and noise with invertible innovation covariance",
     "No test compares the update with the Kalman equations; updater_test.cpp only constructs the object.",
     ["src/ekf/update/updater.cpp", "src/utility/math_helper.cpp"], [{"name": "Updater::KalmanUpdate", "where": "src/ekf/update/updater.cpp"}, {"name": "QR_r", "where": "src/utility/math_helper.cpp"}],
     COMMON + " The square-root form takes the component-wise root of the noise, so diagonal noise is a precondition there.",
     observe=["filter state and covariance after the update"])
prop("P11", "Nullspace projection and compression keep the measurement information",
     "Projecting a linearised measurement on the left nullspace of the feature Jacobian multiplies Jacobian and residual by one matrix with orthonormal rows that annihilates the feature Jacobian, and drops exactly as many rows as that Jacobian has columns. Compressing a tall measurement keeps the information matrix H'H and the information vector H'r and leaves no more rows than columns. Stacking and triangularising two roots keeps the sum of their products.",
     ["inputs"], "for every size and every rank of the Jacobians",
     "math_helper_test.cpp has one numeric example per function.",
     ["src/utility/math_helper.cpp"], [{"name": "ApplyLeftNullspace, CompressMeasurements, QR_r", "where": "src/utility/math_helper.cpp"}],
     COMMON + " CompressMeasurements is proved with loop invariants for two arbitrary columns (Gram entries kept, finished columns zero below the diagonal); Givens rotations follow Eigen's documented contract.",
     observe=["returned Jacobian, residual and root"])

exec(open(os.path.join(V, "tool", "meta_more.py")).read()) if os.path.exists(os.path.join(V, "tool", "meta_more.py")) else None


def main():
    sys.path.insert(0, os.path.join(V, "vc"))
    src = open(os.path.join(V, "vc", "props.py")).read()
    ns = {}
    exec(src.split("import json\nimport os")[0], ns)
    claimed = ns["PROPS"]
    META.sort(key=lambda m: m["id"])
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for m in META:
            if m["id"] not in claimed and m["id"] not in dict(NA):
                continue
            a = {"files": m["files"], "mechanism": m["mech"]}
            if m["state"]:
                a["state"] = m["state"]
            if m["observe"]:
                a["observe_at"] = m["observe"]
            a["hook_needed"] = None
            f.write(json.dumps({"id": m["id"], "title": m["title"], "statement": m["statement"], "quantifier": {"over": m["over"], "text": m["qtext"]},
                                "why_tests_cant": m["why"], "anchors": a}) + "\n")
    man = {"version": 1, "setup_cmd": "bash /verif/setup.sh", "hooks": {"guard": "none", "enable": "no hooks: the checks read and compile /repo's sources as they are", "source_commits": []},
           "checks": [], "not_applicable": [{"property": i, "reason": r} for i, r in NA],
           "notes": "See DESIGN.md. No check reads /verif/seeded."}
    for m in META:
        if m["id"] in claimed:
            man["checks"].append({"property": m["id"], "quick_cmd": f"python3-vt /verif/vc/run.py {m['id']} --tier quick", "thorough_cmd": f"python3-vt /verif/vc/run.py {m['id']} --tier thorough",
                                  "technique": m["tech"], "level": m["level"], "level_note": m["note"]})
            assert claimed[m["id"]].get("level", "proof") == m["level"], m["id"]
    json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    miss = set(claimed) - {m["id"] for m in META}
    assert not miss, miss
    print(len(man["checks"]), "checks")


if __name__ == "__main__":
    main()
