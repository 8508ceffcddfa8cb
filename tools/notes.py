# notes per property for the manifest
