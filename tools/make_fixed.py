"""Appends/refreshes the 'fixed' entries of known_findings.jsonl from /repo's fix commits (development tool; no check runs it)."""
import json, os, subprocess
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
PROP = [("forward-backward uses the rank", "P24"), ("2D plots of non-square", "P28"), ("plot_eigs_mrdmd", "P28"), ("plot_summary", "P28"), ("plot_time_series includes", "P28"), ("mode plots of delayed", "P28"), ("PiDMD", "P17"), ("default transformation of the freq", "P20"), ("band of the shortest periods", "P20"), ("bands of a later sweep", "P21"), ("actual rank of a level", "P21"), ("COSTS plots wrote", "P02"), ("fractional ranks of the local", "P20"), ("ends of the common time base", "P21"), ("optimizer options could not be written", "P21"), ("constraint read from file", "P21"), ("levels of a single window", "P21"), ("lost the window means", "P20"), ("SpDMD with an integer", "P18"), ("could not sample rows", "P24"), ("gamma is None", "P22"), ("started from the reciprocals", "P23"), ("compared signed", "P23"), ("last trial step", "P23"), ("criteria which do not return", "P27"), ("unknown factorizations", "P27"), ("negative compressions", "P27"), ("array of None", "P27"), ("saving a pre-processed", "P08"), ("could not be saved or copied", "P08"), ("could not be clustered again after an import", "P20"),
 ("lost the transformation", "P21"), ("classes of a neighbour", "P21"), ("could not be fitted twice with a cluster sweep", "P01"),
 ("given as a vector", "P13"), ("drops axes of length one", "P14"), ("not conjugate pairs", "P15"), ("rank one factors", "P15"), ("BOPDMD.forecast", "P16"), ("single control input", "P27"), ("input matrix given as a list", "P13"), ("kept the frequency classes", "P01"),
 ("reused the rank and initial", "P01"), ("searched new initial eigenvalues", "P20"), ("pydmd_kwargs of the caller", "P02"),
 ("assigning dmd_time", "P11"), ("did not reach the wrapped", "P11"), ("plot_kwargs of the caller", "P02"), ("fit of a pre-processed", "P11"), ("svd_projection", "P11"), ("HankelDMD failed on lists", "P07"),
 ("HankelDMD windows", "P04"), ("residuals of integer", "P07"), ("16 bit integer", "P07"), ("MrDMD kept", "P01"), ("time intervals of MrDMD", "P12"), ("snapshots of its nodes", "P12"), ("fitted on three", "P12"), ("BOPDMD reused", "P01"), ("overwrote the given init_alpha", "P02"),
 ("RBF kernel in LANDO", "P22"), ("LANDO.predict", "P07"), ("array x_rescale", "P01"), ("LANDO kept", "P01"), ("LANDO reported stale", "P22"),
 ("VarProDMD.forecast", "P05"), ("compression left fewer", "P23"), ("VarProDMD kept", "P01"), ("RDMD reused", "P01"),
 ("indexed DMD instance shared", "P05"), ("rounding of fractional", "P04"), ("mode selectors", "P06"), ("integral_contribution", "P06"),
 ("nullify_amplitudes", "P06"), ("hid the wrong modes", "P06"), ("ignored pending edits", "P05"), ("NumPy integers or integer arrays", "P05"),
 ("HAVOK", "P19"), ("truncation rank", "P09"), ("EDMD.eigenfunctions", "P25"), ("factorization='evd'", "P25"), ("SubspaceDMD(opt=True)", "P03"),
 ("rejected by CDMD", "P03"), ("factors of the first fit", "P01"), ("tikhonov", "P25")]
EXTRA = json.load(open(os.path.join(V, "tools", "fixed_map.json"))) if os.path.exists(os.path.join(V, "tools", "fixed_map.json")) else {}
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()
f = os.path.join(V, "known_findings.jsonl")
keep = [l for l in open(f) if l.strip() and json.loads(l)["status"] == "known"]
out = []
for l in log:
    h, s = l.split(" ", 1)
    if not s.startswith("fix:"):
        continue
    s = s[4:].strip()
    pid = next((p for k, p in list(EXTRA.items()) + PROP if k in s), None)
    assert pid, s
    out.append(json.dumps({"property": pid, "status": "fixed", "commit": h, "text": f"fixed: property={pid} {h} {s}"}) + "\n")
open(f, "w").writelines(keep + out)
print(len(keep), "known", len(out), "fixed")
