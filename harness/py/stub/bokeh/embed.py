from bokeh._record import SAVED


def components(models, wrap_script=True, **kwargs):
    SAVED.append(('components', models, kwargs))
    return f'script {models.title.text}', f'div {models.title.text}'
