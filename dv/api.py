"""How contract files declare contracts."""


class Contract:
    def __init__(self, name, harness, functions, bounded, samples, timeout,
                 budget, max_paths, note, weak):
        self.name = name
        self.harness = harness
        self.functions = functions
        self.bounded = bounded      # text of the bound, or None
        self.samples = samples
        self.timeout = timeout
        self.budget = budget
        self.max_paths = max_paths
        self.note = note
        # modular reasoning that a refactoring can defeat: refutations only
        # count when a failing input is found
        self.weak = weak


def registry():
    contracts = []

    def contract(name, functions, bounded=None, samples=1.0, timeout=20.0,
                 budget=240.0, max_paths=4000, note="", weak=False):
        def deco(f):
            contracts.append(Contract(
                name, f, list(functions), bounded, samples, timeout, budget,
                max_paths, note, weak))
            return f
        return deco
    return contracts, contract
