NA = {
    'C60': 'Losslessness of BWT and move-to-front is an equality between two loops\' results over arbitrary byte arrays (a permutation argument); no dataflow or type rule in reach decides it, and handing the loops to a solver would be another family.',
    'C61': 'That decode(encode(x)) = x depends on 64-bit interval arithmetic with carries at run time; the parts a static rule can decide (same model on both sides, same order of updates) are claimed as C30.',
    'C62': 'Serialisability of whole sessions quantifies over histories of several operations; the per-operation atomicity that static analysis can decide is claimed by C01, C02, C09 and C11.',
    'C30': 'Agreement of the model-building loops of coder and decoder needs their two-dimensional frequency and cumulative tables followed element by element through rescaling; the array abstraction built here keeps one row of such a table, so the comparison would report agreement it has not established. The parts that need no tables are claimed by C28 and its neighbours on the codecs.',
    'C32': 'The kernels are OpenCL C held in strings and compiled at run time for a device; equality with the CPU code is equality of two arithmetic loops over every work-group partition, which no dataflow or type rule in reach decides (a solver would be another family). The host side -- one program, lock and device per use -- is claimed by C41.',
}
