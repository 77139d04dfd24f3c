from torch.utils import data
