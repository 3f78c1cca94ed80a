"""The bodies of the user defined functions."""
TARGET = 'spl_transpiler.runtime.udfs'
PROPERTY = 'C28'
import ipaddress
from pyspark.sql.functions import udf
from pyspark.sql.types import BooleanType, StringType, IntegerType


@udf(returnType=BooleanType())
def cidr_match(ip_address, cidr_range):
    try:
        return ipaddress.ip_address(ip_address) in ipaddress.ip_network(cidr_range, strict=False)
    except ValueError:
        return False


@udf(returnType=StringType())
def ipmask(mask, ip):
    try:
        return str(ipaddress.IPv4Network(f"{ip}/{int(mask)}", strict=False).network_address)
    except ValueError:
        return None


@udf(returnType=StringType())
def printf(format_str, *args):
    return format_str % args


@udf(returnType=IntegerType())
def tonumber(value, base=10):
    try:
        return int(value, base)
    except (ValueError, TypeError):
        return None


@udf(returnType=StringType())
def tostring(value, format: "str | None" = None):
    if format is None:
        if isinstance(value, bool):
            return "True" if value else "False"
        if isinstance(value, (int, float)):
            return str(value)
    elif isinstance(value, int) and format == "binary":
        return bin(value)[2:]
    elif isinstance(value, int) and format == "hex":
        return hex(value)[2:]
    elif isinstance(value, (int, float)) and format == "commas":
        return "{:,}".format(value)
    elif isinstance(value, int) and format == "duration":
        return f"{value // 3600:02d}:{value % 3600 // 60:02d}:{value % 3600 % 60:02d}"
    raise TypeError
