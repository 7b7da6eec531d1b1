class PipelineOptions:
    def __init__(self, flags=None, **kwargs):
        self._options = {"runner": None, "temp_location": None}
        for f in flags or []:
            if f.startswith("--"):
                key, _, value = f[2:].partition("=")
                self._options[key] = value
        self._options.update(kwargs)

    def get_all_options(self, *unused_args, **unused_kwargs):
        return dict(self._options)
