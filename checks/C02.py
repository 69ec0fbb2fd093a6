from mc import rt
from mc.core import Check

if __name__ == "__main__":
    rt.main(Check("C02"), "write")
