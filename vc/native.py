"""Builds and runs the native replay harness: the same postconditions evaluated on the code compiled from /repo's current tree."""
import hashlib
import os
import subprocess
import sys
import time
from concurrent.futures import ThreadPoolExecutor
import extract
from extract import BUILD, REPO, VERIF

CXX = ["g++", "-std=gnu++14", "-O1", "-g0", "-w", "-fno-access-control"]
HDIR = os.path.join(VERIF, "harness")
LIBS = ["-lopencv_core", "-lopencv_imgproc", "-lopencv_calib3d", "-lopencv_features2d", "-lopencv_objdetect", "-lopencv_aruco", "-lopencv_video", "-lopencv_highgui", "-lopencv_imgcodecs", "-lpthread"]

GROUPS = {
    "math": ["utility/math_helper", "utility/type_helper"],
    "types": ["ekf/types", "utility/type_helper"],
    "gps": ["utility/gps_helper"],
    "log": ["infrastructure/data_logger", "infrastructure/debug_logger", "infrastructure/sim/sim_debug_logger", "utility/string_helper"],
    "ekf": ["ekf/ekf", "ekf/types", "utility/math_helper", "utility/type_helper", "utility/gps_helper", "utility/string_helper",
            "infrastructure/data_logger", "infrastructure/debug_logger", "infrastructure/sim/sim_debug_logger"],
    "upd": ["ekf/update/updater"],
    "gpsu": ["ekf/update/gps_updater"], "imuu": ["ekf/update/imu_updater"], "fidu": ["ekf/update/fiducial_updater"], "msckf": ["ekf/update/msckf_updater"],
    "truth": ["infrastructure/sim/truth_engine_cyclic", "infrastructure/sim/truth_engine_spline", "infrastructure/sim/truth_engine"],
    "smooth": ["infrastructure/sim/truth_engine_smoother"],
    "sensors": ["sensors/sensor", "sensors/imu", "sensors/gps"],
    "camera": ["sensors/camera", "sensors/camera_message"],
    "trackers": ["trackers/tracker", "trackers/feature_tracker", "trackers/fiducial_tracker"],
    "simsens": ["sensors/sim/sim_sensor", "sensors/sim/sim_imu", "sensors/sim/sim_gps"],
    "simcam": ["sensors/sim/sim_camera"],
    "simtrk": ["trackers/sim/sim_feature_tracker", "trackers/sim/sim_fiducial_tracker"],
    "rng": ["utility/sim/sim_rng"],
}


def srcs_of(groups):
    out = []
    for g in groups:
        for s in GROUPS.get(g, [g]):
            s = "src/" + s + ".cpp"
            if s not in out and os.path.exists(os.path.join(REPO, s)):
                out.append(s)
    return out


class Native:
    def __init__(self, pid, src, groups):
        self.pid, self.src, self.groups = pid, os.path.join(HDIR, src), groups
        self.err = None
        self.exe = None
        self.pool = ThreadPoolExecutor(8)

    def start(self):
        """start compiling in the background"""
        gen = extract.version_header()
        self.dir = os.path.join(BUILD, "native")
        os.makedirs(self.dir, exist_ok=True)
        th = extract.tree_hash()[:16]
        inc = ["-I" + REPO + "/src", "-I" + gen, "-isystem", "/usr/include/opencv4", "-I" + HDIR]
        hh = hashlib.sha256()
        for f in sorted(os.listdir(HDIR)):
            if f.endswith(".hpp"):
                hh.update(open(os.path.join(HDIR, f), "rb").read())
        hh.update(open(self.src, "rb").read())
        self.jobs = []
        for f in os.listdir(self.dir):      # drop objects of other trees
            if not f.startswith(th) and f.endswith((".o", ".x")):
                try:
                    if time.time() - os.path.getmtime(os.path.join(self.dir, f)) > 1800:
                        os.remove(os.path.join(self.dir, f))
                except OSError:
                    pass
        def comp(src, obj):
            if os.path.exists(obj):
                return obj, ""
            tmp = obj + f".{os.getpid()}.o"
            r = subprocess.run(CXX + inc + ["-c", src, "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
            if r.returncode:
                return None, src + ": " + r.stderr[-3000:]
            os.replace(tmp, obj)
            return obj, ""
        units = [(self.src, f"{th}_{hh.hexdigest()[:12]}_{os.path.basename(self.src)}.o")]
        units += [(os.path.join(REPO, s), f"{th}_{s.replace('/', '_')}.o") for s in srcs_of(self.groups)]
        for s, o in units:
            self.jobs.append(self.pool.submit(comp, s, os.path.join(self.dir, o)))
        self.exe_path = os.path.join(self.dir, f"{th}_{hh.hexdigest()[:12]}_{self.pid}.x")

    def link(self):
        objs = []
        for j in self.jobs:
            o, e = j.result()
            if o is None:
                self.err = "does not compile: " + e
                return False
            objs.append(o)
        if not os.path.exists(self.exe_path):
            tmp = self.exe_path + f".{os.getpid()}"
            r = subprocess.run(["g++", "-Wl,--as-needed", *objs, "-o", tmp, *LIBS], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
            if r.returncode:
                self.err = "does not link: " + r.stderr[-3000:]
                return False
            os.replace(tmp, self.exe_path)
        self.exe = self.exe_path
        return True

    def run(self, seed, iters, timeout=300):
        """-> dict(cases, checks, obs, fails)"""
        scratch = os.path.join(BUILD, "scratch", f"{self.pid}.{os.getpid()}")
        os.makedirs(scratch, exist_ok=True)
        out = os.path.join(scratch, "out.txt")
        res = {"cases": 0, "checks": 0, "obs": {}, "fails": [], "cmd": f"{self.exe} {seed} {iters}"}
        try:
            r = subprocess.run([self.exe, str(seed), str(iters), out], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, cwd=scratch, timeout=timeout)
            res["rc"] = r.returncode
        except subprocess.TimeoutExpired:
            res["rc"] = "timeout"
        if os.path.exists(out):
            for l in open(out, errors="replace"):
                p = l.rstrip("\n").split("\t")
                if p[0] == "FAIL":
                    res["fails"].append({"obligation": p[1], "input": p[2], "detail": p[3] if len(p) > 3 else ""})
                elif p[0] == "OB":
                    res["obs"][p[1]] = int(p[2])
                elif p[0] == "CASES":
                    res["cases"] = int(p[1])
                elif p[0] == "CHECKS":
                    res["checks"] = int(p[1])
        for root, dirs, files in os.walk(scratch, topdown=False):
            for f in files:
                os.remove(os.path.join(root, f))
            for d in dirs:
                os.rmdir(os.path.join(root, d))
        os.rmdir(scratch)
        return res
