class EstimateNoiserBase:
    """Base class of noisers that are applied to cardinality estimates."""

    def __call__(self, cardinality_estimate):
        raise NotImplementedError()


class SketchNoiserBase:
    def __call__(self, sketch):
        raise NotImplementedError()


class EstimatorBase:
    def __call__(self, sketch_list):
        raise NotImplementedError()
