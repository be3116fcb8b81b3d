#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": ("random expression graphs, gradients against a reference adjoint (model-based property testing)",
         "Gradients of every tensor of generated graphs (chains, fan-out, diamonds, shared sub-graphs, several roots) are compared with an element-level reference tape. One known finding (explicit expanding Broadcast averages, fixed by the existing tests) is reported and tolerated only in exactly that form."),
 "C02": ("enumerated and random operands per operation, vector-Jacobian products against closed-form partials (property testing)",
         "Each operation alone, on all small shapes, ranks up to 6, large and extreme values; every element of every operand gradient compared; exact for maxima/minima selection."),
 "C03": ("enumerated and random operands, element-wise results against the scalar definition (property testing)",
         "All operations on all small shape pairs and random broadcast shapes up to rank 6 over the whole range of float64."),
 "C04": ("enumerated and random matrices and batch shapes against reference sums (property testing)",
         "MatMul, Dot and Transpose over all small batch shapes, with rounding bounds derived from the operands; Transpose bit by bit."),
 "C05": ("enumerated and random operands, reductions against compensated reference statistics (property testing)",
         "Whole-tensor and per-fibre reductions along every dimension of every rank, magnitudes over the float64 range."),
 "C06": ("enumerated and random data movement compared bit by bit with index arithmetic (property testing)",
         "Construction, indexing, slices, patches, concatenations and reshapes: every element is the element the index map prescribes; round trips and compositions."),
 "C07": ("metamorphic: implicit against explicit expansion, values and gradients (property testing)",
         "Shape pairs enumerated up to rank 4 and random to rank 6; one known finding as for C01."),
 "C08": ("stateful model-based testing of gradient-context histories",
         "Random histories of operations, back-propagations and resets; tracked/spent status and gradients compared with a status model after every event."),
 "C09": ("exhaustive small argument spaces and random invalid calls; totality oracle (fuzzing)",
         "Every public entry point with valid and invalid arguments: an error exactly when the precondition fails, no panic, no hang, no nil without an error."),
 "C10": ("differential histories: the same events with and without mutation of every caller-owned slice (stateful property testing)",
         "All values, shapes and statuses of all live tensors compared bit by bit after every event."),
 "C11": ("random training loops, every step against reference gradients (stateful model-based testing)",
         "Models of 1-3 layers with sharing and residuals, any loss, any learning rate, with omitted resets, updates and back-propagations."),
 "C12": ("random and enumerated predictions and targets, loss values against the formulas (property testing)",
         "MSE, BCE and CE with clipping, any batch and class count, extreme predictions and targets outside [0,1]."),
 "C13": ("random predictions and targets, loss derivatives against the analytic formulas (property testing)",
         "Gradients by back-propagation through each loss, including clipped predictions and predictions computed upstream."),
 "C14": ("random inputs, activation values against the formulas (property testing)",
         "All activations, all ranks and dimensions, extreme inputs; softmax fibres sum to one."),
 "C15": ("random inputs and upstream weights, activation gradients against the formulas (property testing)",
         "Gradients of activations by back-propagation compared with closed forms."),
 "C16": ("random histories of one layer, values, gradients and weight pointers against a model (stateful property testing)",
         "Affine map, row independence bit by bit, gradients of weight, bias and input, pointers of Weights()."),
 "C17": ("random update sequences and updates over back-propagated programs against w - lr*g (property testing)",
         "Every element of every updated tensor, rejection of invalid updates, immutability of old tensors."),
 "C18": ("statistical property testing of generated configurations and call orders",
         "Shape, exact support, tracking; moments, Kolmogorov-Smirnov, extremes, repeats, correlations between positions, calls and initializers at thresholds below 1e-11 per test. Deviations below the resolution of 10^6 draws (about 0.4% of scale) are not seen."),
 "C19": ("random and enumerated call histories against a counting model (stateful property testing)",
         "Result compared exactly after every event; partitions, rejected calls, several metrics at once."),
 "C20": ("random concurrent programs under the race detector, results against the sequential run (concurrency fuzzing)",
         "Data races the detector sees in the schedules that ran, and bit-by-bit agreement with sequential execution."),
}
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": [], "not_applicable": [],
     "notes": "One Go harness (/verif/harness), built against /repo by every check. known_findings.txt lists findings and repairs; DESIGN.md describes the checks."}
for k, (t, n) in T.items():
    m["checks"].append({"property": k, "quick_cmd": f"./check {k} quick", "thorough_cmd": f"./check {k} thorough",
        "evidence_file": f"evidence/{k}.json", "technique": t, "level": "exploration", "level_note": n})
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
