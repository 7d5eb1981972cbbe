import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from rvm import env  # noqa: E402, F401  (must come before numpy)
from rvm.core import main  # noqa: E402

sys.exit(main())
