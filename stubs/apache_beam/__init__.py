"""In-process stand-in for the few Apache Beam names the driver uses."""


class DoFn:
    def process(self, element, *args, **kwargs):
        raise NotImplementedError()


class CombineFn:
    pass


class _Transform:
    label = None

    def __rrshift__(self, label):
        self.label = label
        return self

    def expand(self, values):
        raise NotImplementedError()


class PCollection:
    def __init__(self, pipeline, values):
        self.pipeline, self.values = pipeline, values

    def __or__(self, transform):
        return PCollection(self.pipeline, transform.expand(self.values))


class Create(_Transform):
    def __init__(self, values):
        self._values = list(values)

    def expand(self, _):
        return list(self._values)


class ParDo(_Transform):
    def __init__(self, fn, *args, **kwargs):
        self._fn, self._args, self._kwargs = fn, args, kwargs

    def expand(self, values):
        out = []
        for v in values:
            r = self._fn.process(v, *self._args, **self._kwargs)
            out.extend(r if r is not None else [])
        return out


class Map(_Transform):
    def __init__(self, fn, *args, **kwargs):
        self._fn, self._args, self._kwargs = fn, args, kwargs

    def expand(self, values):
        return [self._fn(v, *self._args, **self._kwargs) for v in values]


# How a runner bundles the inputs of a combiner is up to the runner: a check can
# set this to see that the result does not depend on it.
COMBINE_BUNDLE_SIZE = 2


class CombineGlobally(_Transform):
    def __init__(self, fn):
        self._fn = fn

    def expand(self, values):
        accs = [self._fn.create_accumulator()]
        n = 0
        for v in values:
            if n == COMBINE_BUNDLE_SIZE:
                accs.append(self._fn.create_accumulator())
                n = 0
            accs[-1] = self._fn.add_input(accs[-1], v)
            n += 1
        merged = self._fn.merge_accumulators(accs)
        return [self._fn.extract_output(merged)]


class Pipeline:
    def __init__(self, options=None):
        self.options = options

    def __or__(self, transform):
        return PCollection(self, transform.expand([]))

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        return False

    def run(self):
        return self
