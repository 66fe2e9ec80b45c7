NOTES={}
