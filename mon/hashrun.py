"""subprocess: run the specs of a directory under the interpreter settings of the caller"""
import sys
import warnings

if __name__ == "__main__":
    warnings.simplefilter("ignore")
    from mon.main import import_georinex
    import_georinex()
    from mon.pristine import hashrun
    hashrun(sys.argv[1])
