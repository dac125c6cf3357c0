"""Properties that are listed but not decided by model checking here, with the reason."""
PROPERTIES = [
    {"id": "C90", "title": "Training on a GPU agrees with the training on the CPU",
     "statement": "For every dataset, start and setting, training with use_gpu on a machine with a CUDA device ends with the same matrices, losses and convergence status as training without, up to floating point rounding.",
     "quantifier": {"over": ["inputs", "configurations"], "text": "all datasets, starts and training settings"},
     "why_tests_cant": "The tests do not use a GPU.",
     "anchors": {"files": ["rust/lib.rs"],
                 "mechanism": [{"name": "ls_nmf_update_gpu, ws_nmf_update_gpu", "where": "rust/lib.rs"}]},
     "reason": "needs a CUDA device and the crate candle, neither of which is here, so no execution of it can be enumerated; the CPU path of the extension is decided by C32"},
]
