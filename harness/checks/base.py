class BaseCheck(object):
    prop = None
    level = 'exploration'
    technique = 'runtime monitoring: random programs on the real code, judged online by a reference model'
    level_note = ''
    rule = ''
    workers = 8
    quick = 400
    thorough = 8000
    assumptions = []

    def cases(self, tier):
        return self.quick if tier == 'quick' else self.thorough

    def begin(self, tier, seed, w, workers):
        pass

    def end(self, stats):
        pass

    def required(self, tier):
        """name of an observation counter -> minimum for a conclusive run"""
        return {}

    def extra_coverage(self, merged):
        return {}

    def run_case(self, rng, idx, tier, stats):
        raise NotImplementedError
