from apache_beam import Pipeline


class TestPipeline(Pipeline):
    pass
