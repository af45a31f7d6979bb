from .graphical_lasso_ import GraphicalLasso
from .latent_graphical_lasso_ import LatentGraphicalLasso
from .time_graphical_lasso_ import TimeGraphicalLasso
from .latent_time_graphical_lasso_ import LatentTimeGraphicalLasso
