"""Environment model of ctapipe's camera geometry."""
import numpy as np


class CameraGeometry:
    def __init__(self, cam_id, pix_id, pix_x, pix_y, pix_area, pix_type,
                 frame=None, sampling_rate=None):
        self.cam_id = cam_id
        self.pix_id = np.asarray(pix_id)
        self.pix_x = pix_x
        self.pix_y = pix_y
        self.pix_type = pix_type
        self.frame = frame
        self.sampling_rate = sampling_rate
        x = pix_x.to_value('m')
        y = pix_y.to_value('m')
        if not (len(x) == len(y) == len(self.pix_id)):
            raise ValueError("inconsistent number of pixels")

    def transform_to(self, frame):
        return CameraGeometry(
            self.cam_id, self.pix_id, self.pix_x, self.pix_y, None,
            self.pix_type, frame, self.sampling_rate)

    @property
    def neighbor_matrix_where(self):
        x = self.pix_x.to_value('m')
        y = self.pix_y.to_value('m')
        d2 = (x[:, None] - x) ** 2 + (y[:, None] - y) ** 2
        off = d2 + np.eye(len(x)) * 1e9
        # nearest pixels, including across the gap between modules
        limit = 1.4 ** 2 * off.min()
        return np.argwhere(off <= limit)
