// stands in for a header of the target; what it declares comes from port.h
