from .frame import main
from .checks import CHECKS
main(CHECKS)
