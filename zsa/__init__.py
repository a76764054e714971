"""zsa -- static analyser for thu-ml/zhusuan.

Abstract interpretation of the Python source in /repo/zhusuan (never imported,
never executed) into a hash-consed value graph, plus the abstract domains the
checks use on that graph: algebraic normal form, symbolic shapes, dtypes,
gradient flow, effects/ordering, typestate.
"""
