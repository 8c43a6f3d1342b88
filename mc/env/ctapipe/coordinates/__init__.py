class EngineeringCameraFrame:
    def __init__(self, n_mirrors=1):
        self.n_mirrors = n_mirrors
